// V12: input delay and the prediction window (Y28).
// Real code: crates/core/sync/src/timeline/{input,sync}.rs.  Floating point is uninterpreted throughout.
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@@ include tick.inc
//@@ include op.inc TRAIT=>Sub SPECTRAIT=>SubSpecImpl METH=>sub OBEYS=>obeys_sub_spec REQ=>sub_req SPEC=>sub_spec LHS=>Tick RHS=>Tick OUT=>i32 FN=>tick_diff
/// proved on the real operator elsewhere (C25): the difference, saturated to an i32
#[verifier::external_body]
pub broadcast proof fn tick_diff_is(a: Tick, b: Tick)
    ensures #[trigger] tick_diff(a, b) as int == (if a.0 - b.0 > 0x7fff_ffff { 0x7fff_ffff } else if a.0 - b.0 < -0x8000_0000 { -0x8000_0000 } else { a.0 - b.0 })
{}
//@@ include f32.inc
//@@ include durf.inc
#[derive(Clone, Copy)]
pub struct LinkStats { pub rtt: Duration, pub jitter: Duration }
//@@ source crates/core/sync/src/timeline/sync.rs
//@@ item struct SyncConfig f32=>F32
impl SyncConfig {
//@@ fn SyncConfig::jitter_margin
//@@ spec: ensures r == dadd(dmul(jitter, self.jitter_multiple as u32), dscale(tick_duration, self.jitter_margin))
//@@ end
}
//@@ source crates/core/sync/src/timeline/input.rs
//@@ item struct InputDelayConfig
// ---------------------------------------------------------------- input delay (Y28)
//@@ source crates/core/sync/src/timeline/input.rs
/// the delay for a latency of `n` ticks: at least the minimum; covered up to the maximum; then the window predicts
pub open spec fn delay_for(c: InputDelayConfig, n: int) -> int {
    if n <= c.minimum_input_delay_ticks { c.minimum_input_delay_ticks as int }
    else if n <= c.maximum_input_delay_before_prediction { n }
    else if n <= min_u16(c.maximum_predicted_ticks + c.maximum_input_delay_before_prediction) { c.maximum_input_delay_before_prediction as int }
    else { n - c.maximum_predicted_ticks }
}
pub open spec fn min_u16(n: int) -> int { if n > 65535 { 65535 } else { n } }
impl InputDelayConfig {
//@@ fn InputDelayConfig::is_lockstep
//@@ spec: ensures r == (self.maximum_predicted_ticks == 0)
//@@ end
//@@ fn InputDelayConfig::input_delay_ticks
//@@ rename: ( effective_rtt . as_nanos ( ) as f32 / tick_interval . as_nanos ( ) as f32 ) . ceil ( ) as u16 => effective_rtt.vx_whole_ticks(tick_interval)
//@@ spec:
//@@ | requires self.minimum_input_delay_ticks <= self.maximum_input_delay_before_prediction
//@@ | ensures ({
//@@ |   let w = whole_ticks(dadd(link_stats.rtt, dadd(dmul(link_stats.jitter, sync_config.jitter_multiple as u32), dscale(tick_interval, sync_config.jitter_margin))), tick_interval);
//@@ |   r == delay_for(*self, min_u16(w + (if self.maximum_predicted_ticks == 0 { 2int } else { 0 }))) })
//@@ end
}
/// the latency not covered by delay is what is predicted, and never more than the window
proof fn delay_bounds(c: InputDelayConfig, n: int)
    requires c.minimum_input_delay_ticks <= c.maximum_input_delay_before_prediction, 0 <= n <= 65535
    ensures ({ let d = delay_for(c, n);
        &&& c.minimum_input_delay_ticks <= d <= 65535
        &&& n - d <= c.maximum_predicted_ticks
        &&& (d > c.maximum_input_delay_before_prediction ==> n - d == c.maximum_predicted_ticks)
        &&& (n <= c.maximum_input_delay_before_prediction ==> n <= d) })
{}
proof fn delay_monotone(c: InputDelayConfig, n: int, m: int)
    requires c.minimum_input_delay_ticks <= c.maximum_input_delay_before_prediction, 0 <= n <= m <= 65535
    ensures delay_for(c, n) <= delay_for(c, m)
{}
// ---------------------------------------------------------------- the delay of a session: the largest any of its links needs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Entity(pub u64);
pub struct Link { pub stats: LinkStats }
/// the link entities
#[verifier::external_body]
pub struct Links { m: std::collections::HashMap<u64, Link> }
impl View for Links { type V = Map<Entity, Link>; uninterp spec fn view(&self) -> Map<Entity, Link>; }
impl Links {
    /// Query::get(..).ok()
    #[verifier::external_body]
    pub fn vx_get(&self, e: Entity) -> (r: Option<&Link>)
        ensures match r { Some(l) => self@.dom().contains(e) && *l == self@[e], None => !self@.dom().contains(e) } { unimplemented!() }
}
pub type SmallVec = Vec<Entity>;
pub struct P2PLinks { pub l: Vec<(Entity, P2P)> }
fn vx_max(a: u16, b: u16) -> (r: u16) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
//@@ source crates/connection/connection/src/p2p.rs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@@ item enum P2P
//@@ source crates/connection/connection/src/network_topology.rs
//@@ item enum NetworkTopology SmallVec < [ Entity ; 4 ] >=>SmallVec
//@@ item enum NetworkTopologyError SmallVec < [ Entity ; 4 ] >=>SmallVec
//@@ source crates/core/sync/src/timeline/sync.rs
//@@ item struct SyncContext
//@@ source crates/core/sync/src/timeline/input.rs
//@@ item struct InputTimelineConfig
//@@ item struct LocalTimelineSync f32=>F32
pub open spec fn ok(c: InputDelayConfig) -> bool { c.minimum_input_delay_ticks <= c.maximum_input_delay_before_prediction }
/// what one link needs, if it is there
pub open spec fn need(e: Entity, links: Map<Entity, Link>, c: InputTimelineConfig, tick: Duration) -> Option<int> {
    if !links.dom().contains(e) { None } else {
        let s = links[e].stats;
        let w = whole_ticks(dadd(s.rtt, dadd(dmul(s.jitter, c.sync.jitter_multiple as u32), dscale(tick, c.sync.jitter_margin))), tick);
        Some(delay_for(c.input_delay_config, min_u16(w + (if c.input_delay_config.maximum_predicted_ticks == 0 { 2int } else { 0 })))) }
}
/// the largest any of these needs; nothing if one of them is not there
pub open spec fn largest(l: Seq<Entity>, links: Map<Entity, Link>, c: InputTimelineConfig, tick: Duration) -> Option<int> decreases l.len() {
    if l.len() == 0 { Some(0) } else {
        match (largest(l.drop_last(), links, c, tick), need(l.last(), links, c, tick)) { (Some(a), Some(b)) => Some(if a > b { a } else { b }), _ => None } }
}
/// (over unordered queries:) an upper bound of all, reached by one, and None exactly when one is missing
proof fn largest_is(l: Seq<Entity>, links: Map<Entity, Link>, c: InputTimelineConfig, tick: Duration)
    requires ok(c.input_delay_config)
    ensures match largest(l, links, c, tick) {
        Some(m) => (forall|i: int| 0 <= i < l.len() ==> (#[trigger] need(l[i], links, c, tick)) is Some && need(l[i], links, c, tick)->0 <= m) && (m == 0 || exists|i: int| 0 <= i < l.len() && need(l[i], links, c, tick) == Some(m)),
        None => exists|i: int| 0 <= i < l.len() && !links.dom().contains(#[trigger] l[i]) }
    decreases l.len()
{
    if l.len() > 0 {
        let p = l.drop_last();
        largest_is(p, links, c, tick);
        assert(forall|i: int| 0 <= i < p.len() ==> p[i] == l[i]);
        if let Some(m) = largest(l, links, c, tick) {
            assert forall|i: int| 0 <= i < l.len() implies (#[trigger] need(l[i], links, c, tick)) is Some && need(l[i], links, c, tick)->0 <= m by {
                if i < p.len() { assert(need(p[i], links, c, tick) is Some); }
            }
            if m > 0 {
                if need(l.last(), links, c, tick) == Some(m) { assert(need(l[l.len() - 1], links, c, tick) == Some(m)); }
                else { let i = choose|i: int| 0 <= i < p.len() && need(p[i], links, c, tick) == Some(m); assert(need(l[i], links, c, tick) == Some(m)); }
            }
        } else if largest(p, links, c, tick) is Some { assert(!links.dom().contains(l[l.len() - 1])); }
        else { let i = choose|i: int| 0 <= i < p.len() && !links.dom().contains(#[trigger] p[i]); assert(!links.dom().contains(l[i])); }
    }
}
pub open spec fn candidates(l: Seq<(Entity, P2P)>) -> Seq<Entity> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { let p = candidates(l.drop_last()); if l.last().1 is Candidate { p.push(l.last().0) } else { p } }
}
proof fn largest_none(a: Seq<Entity>, b: Seq<Entity>, links: Map<Entity, Link>, c: InputTimelineConfig, tick: Duration)
    requires largest(a, links, c, tick) is None
    ensures largest(a + b, links, c, tick) is None
    decreases b.len()
{ if b.len() > 0 { largest_none(a, b.drop_last(), links, c, tick); assert((a + b).drop_last() =~= a + b.drop_last()); } else { assert(a + b =~= a); } }
proof fn candidates_grow(l: Seq<(Entity, P2P)>, n: int)
    requires 0 <= n <= l.len()
    ensures exists|rest: Seq<Entity>| candidates(l) == #[trigger] (candidates(l.take(n)) + rest)
    decreases l.len() - n
{
    if n == l.len() { assert(l.take(n) =~= l); assert(candidates(l) =~= candidates(l.take(n)) + Seq::<Entity>::empty()); } else {
        candidates_grow(l, n + 1);
        let r = choose|r: Seq<Entity>| candidates(l) == #[trigger] (candidates(l.take(n + 1)) + r);
        assert(l.take(n + 1).drop_last() =~= l.take(n));
        if l[n].1 is Candidate { assert(candidates(l) =~= candidates(l.take(n)) + (seq![l[n].0] + r)); } else { assert(candidates(l) =~= candidates(l.take(n)) + r); }
    }
}
/// the session's delay: the start phase counts every candidate, otherwise the topology says which links matter
pub open spec fn session_delay(p2p: Seq<(Entity, P2P)>, t: NetworkTopology, links: Map<Entity, Link>, c: InputTimelineConfig, tick: Duration) -> Option<int> {
    if candidates(p2p).len() > 0 { largest(candidates(p2p), links, c, tick) } else {
        match t {
            NetworkTopology::Client(e) => need(e, links, c, tick),
            NetworkTopology::HostClient { client, .. } => need(client, links, c, tick),
            NetworkTopology::P2P(l) => largest(l@, links, c, tick),
            _ => None,
        }
    }
}
impl LocalTimelineSync {
//@@ fn LocalTimelineSync::input_delay
//@@ spec: ensures r == self.input_delay_ticks
//@@ end
//@@ closure LocalTimelineSync::recompute_input_delay let:delay_for
//@@ sig: fn vx_delay($0: Entity, links: &Links, config: &InputTimelineConfig, tick_duration: Duration) -> Option<u16>
//@@ rename: links . get ( entity ) . ok ( ) => links.vx_get(entity)
//@@ closures: map
//@@ spec: requires ok(config.input_delay_config) ensures (r is Some) == (need($0, links@, *config, tick_duration) is Some), r is Some ==> r->0 == need($0, links@, *config, tick_duration)->0
//@@ end
//@@ closure LocalTimelineSync::recompute_input_delay filter_map
//@@ sig: fn vx_candidate(vx_p: (Entity, &P2P), has_candidates: &mut bool) -> Option<Entity>
//@@ rename: has_candidates = true => *has_candidates = true
//@@ start: let $0 = vx_p;
//@@ spec: ensures vx_p.1 is Candidate ==> r == Some(vx_p.0) && *final(has_candidates), !(vx_p.1 is Candidate) ==> r is None && *final(has_candidates) == *old(has_candidates)
//@@ end
//@@ closure LocalTimelineSync::recompute_input_delay try_fold#0
//@@ sig: fn vx_step_candidate($0: u16, $1: Entity, links: &Links, config: &InputTimelineConfig, tick_duration: Duration) -> Option<u16>
//@@ hoist: let:delay_for => Self::vx_delay($A, links, config, tick_duration)
//@@ rename: maximum . max ( => vx_max(maximum,
//@@ spec: requires ok(config.input_delay_config) ensures ({ let n = need($1, links@, *config, tick_duration); (r is Some) == (n is Some) && (r is Some ==> r->0 == (if $0 > n->0 { $0 as int } else { n->0 })) })
//@@ end
//@@ closure LocalTimelineSync::recompute_input_delay try_fold#1
//@@ sig: fn vx_step_peer($0: u16, $1: &Entity, links: &Links, config: &InputTimelineConfig, tick_duration: Duration) -> Option<u16>
//@@ hoist: let:delay_for => Self::vx_delay($A, links, config, tick_duration)
//@@ rename: maximum . max ( => vx_max(maximum,
//@@ spec: requires ok(config.input_delay_config) ensures ({ let n = need(*$1, links@, *config, tick_duration); (r is Some) == (n is Some) && (r is Some ==> r->0 == (if $0 > n->0 { $0 as int } else { n->0 })) })
//@@ end
    /// iter().filter_map(vx_candidate).try_fold(0, vx_step_candidate)
    fn vx_fold_candidates(p2p_links: &P2PLinks, has_candidates: &mut bool, links: &Links, config: &InputTimelineConfig, tick_duration: Duration) -> (r: Option<u16>)
        requires ok(config.input_delay_config), !*old(has_candidates)
        ensures *final(has_candidates) == (candidates(p2p_links.l@).len() > 0), ({ let n = largest(candidates(p2p_links.l@), links@, *config, tick_duration); (r is Some) == (n is Some) && (r is Some ==> r->0 == n->0) })
    {
        let ghost l = p2p_links.l@;
        let mut acc: u16 = 0;
        let mut i: usize = 0;
        while i < p2p_links.l.len()
            invariant l == p2p_links.l@, 0 <= i <= l.len(), ok(config.input_delay_config), *has_candidates == (candidates(l.take(i as int)).len() > 0), ({ let n = largest(candidates(l.take(i as int)), links@, *config, tick_duration); n is Some && acc == n->0 })
            decreases l.len() - i
        {
            proof { assert(l.take(i + 1).drop_last() =~= l.take(i as int)); candidates_grow(l, i + 1); }
            let ghost c0 = candidates(l.take(i as int));
            let ghost c1 = candidates(l.take(i + 1));
            proof { if l[i as int].1 is Candidate { assert(c1.drop_last() =~= c0 && c1.last() == l[i as int].0); } }
            match Self::vx_candidate((p2p_links.l[i].0, &p2p_links.l[i].1), has_candidates) {
                None => {}
                Some(e) => match Self::vx_step_candidate(acc, e, links, config, tick_duration) {
                    Some(x) => { acc = x; }
                    None => {
                        proof { let r = choose|r: Seq<Entity>| candidates(l) == #[trigger] (c1 + r); largest_none(c1, r, links@, *config, tick_duration); assert(candidates(l).len() > 0); }
                        return None;
                    }
                },
            }
            i += 1;
        }
        proof { assert(l.take(l.len() as int) =~= l); }
        Some(acc)
    }
    /// iter().try_fold(0, vx_step_peer)
    fn vx_fold_peers(peers: &Vec<Entity>, links: &Links, config: &InputTimelineConfig, tick_duration: Duration) -> (r: Option<u16>)
        requires ok(config.input_delay_config)
        ensures ({ let n = largest(peers@, links@, *config, tick_duration); (r is Some) == (n is Some) && (r is Some ==> r->0 == n->0) })
    {
        let mut acc: u16 = 0;
        let mut i: usize = 0;
        while i < peers.len()
            invariant 0 <= i <= peers@.len(), ok(config.input_delay_config), ({ let n = largest(peers@.take(i as int), links@, *config, tick_duration); n is Some && acc == n->0 })
            decreases peers@.len() - i
        {
            proof { assert(peers@.take(i + 1).drop_last() =~= peers@.take(i as int)); }
            match Self::vx_step_peer(acc, &peers[i], links, config, tick_duration) {
                Some(x) => { acc = x; }
                None => {
                    proof { largest_none(peers@.take(i + 1), peers@.skip(i + 1), links@, *config, tick_duration); assert(peers@.take(i + 1) + peers@.skip(i + 1) =~= peers@); }
                    return None;
                }
            }
            i += 1;
        }
        proof { assert(peers@.take(peers@.len() as int) =~= peers@); }
        Some(acc)
    }
//@@ fn LocalTimelineSync::recompute_input_delay
//@@ hoist: let:delay_for => Self::vx_delay($A, links, config, tick_duration)
//@@ hoist: try_fold over p2p_links.iter().filter_map($C) => Self::vx_fold_candidates(p2p_links, &mut has_candidates, links, config, tick_duration)
//@@ hoist: try_fold over peers.iter() => Self::vx_fold_peers(peers, links, config, tick_duration)
//@@ rename: & Query < & Link > => &Links ;; & Query < ( Entity , & P2P ) > => &P2PLinks
//@@ spec:
//@@ | requires ok(config.input_delay_config)
//@@ | ensures ({
//@@ |   let d = session_delay(p2p_links.l@, *topology, links@, *config, tick_duration);
//@@ |   r == (d is Some) && (if d is Some { final(self).input_delay_ticks == d->0 } else { *final(self) == *old(self) })
//@@ |   && final(self).controller == old(self).controller && final(self).is_synced == old(self).is_synced && final(self).relative_speed == old(self).relative_speed })
//@@ end
}
pub struct TickDuration(pub Duration);
pub struct NetworkingMetadata { pub mode: NetworkTopology }
pub struct LocalTimelineShift { pub delta: i32 }
impl InputTimelineConfig {
//@@ fn InputTimelineConfig::is_lockstep
//@@ spec: ensures r == (self.input_delay_config.maximum_predicted_ticks == 0)
//@@ end
//@@ fn InputTimelineConfig::maximum_predicted_ticks
//@@ spec: ensures r == self.input_delay_config.maximum_predicted_ticks
//@@ end
    /// every shift of the clock recomputes the delay, which stays as it is while a latency is unknown
//@@ fn InputTimelineConfig::recompute_input_delay_on_local_timeline_shift
//@@ rename: On < LocalTimelineShift > => LocalTimelineShift ;; Res < TickDuration > => TickDuration ;; Res < NetworkingMetadata > => NetworkingMetadata ;; Query < & Link > => Links ;; Query < ( Entity , & P2P ) > => P2PLinks ;; Res < InputTimelineConfig > => InputTimelineConfig ;; mut timeline : ResMut < LocalTimelineSync > => timeline: &mut LocalTimelineSync
//@@ spec:
//@@ | requires ok(config.input_delay_config)
//@@ | ensures ({ let d = session_delay(p2p_links.l@, metadata.mode, links@, config, tick_duration.0); final(timeline).input_delay_ticks == (if d is Some { d->0 } else { old(timeline).input_delay_ticks as int }) })
//@@ end
    /// so does a new configuration, which starts at its minimum while a latency is unknown
//@@ fn InputTimelineConfig::recompute_input_delay_on_config_update
//@@ rename: On < Insert , InputTimelineConfig > => () ;; Res < TickDuration > => TickDuration ;; Res < NetworkingMetadata > => NetworkingMetadata ;; Query < & Link > => Links ;; Query < ( Entity , & P2P ) > => P2PLinks ;; Res < InputTimelineConfig > => InputTimelineConfig ;; mut timeline : ResMut < LocalTimelineSync > => timeline: &mut LocalTimelineSync
//@@ spec:
//@@ | requires ok(config.input_delay_config)
//@@ | ensures ({ let d = session_delay(p2p_links.l@, metadata.mode, links@, config, tick_duration.0); final(timeline).input_delay_ticks == (if d is Some { d->0 } else { config.input_delay_config.minimum_input_delay_ticks as int }) })
//@@ end
}
// ---------------------------------------------------------------- the prediction window (Y28)
//@@ item const PREDICTION_WINDOW_HYSTERESIS_TICKS
//@@ item struct PredictionWindowWait
/// the difference of two ticks as an i32
pub open spec fn tdiff(a: Tick, b: Tick) -> int { let d = a.0 - b.0; if d > 0x7fff_ffff { 0x7fff_ffff } else if d < -0x8000_0000 { -0x8000_0000 } else { d } }
/// the decision: whether to hold back, being held back or not before
pub open spec fn hold(was: bool, origin: Tick, now: Tick, confirmed: Option<Tick>, max: u16) -> bool {
    let depth = tdiff(now, match confirmed { Some(c) => c, None => origin });
    if confirmed is None && now == origin { false }
    else if was { depth > (if max < 2 { 0 } else { max - 2 }) }
    else { depth >= max }
}
/// i32::from(u16)
pub fn vx_i32(n: u16) -> (r: i32) ensures r == n { n as i32 }
impl PredictionWindowWait {
//@@ fn Default for PredictionWindowWait::default
//@@ spec: ensures !r.waiting, r.origin_tick is None, r.confirmed_tick is None
//@@ end
//@@ fn PredictionWindowWait::is_waiting
//@@ spec: ensures r == self.waiting
//@@ end
//@@ fn PredictionWindowWait::prediction_depth
//@@ spec: ensures r == self.prediction_depth
//@@ end
//@@ fn PredictionWindowWait::confirmed_tick
//@@ spec: ensures r == self.confirmed_tick
//@@ end
//@@ fn PredictionWindowWait::maximum_predicted_ticks
//@@ spec: ensures r == self.maximum_predicted_ticks
//@@ end
//@@ fn PredictionWindowWait::reset
//@@ spec: ensures !final(self).waiting, final(self).origin_tick is None, final(self).confirmed_tick is None
//@@ end
//@@ fn PredictionWindowWait::update
//@@ rename: i32 :: from => vx_i32
//@@ start: broadcast use tick_diff_is;
//@@ spec:
//@@ | ensures ({
//@@ |   let o = match old(self).origin_tick { Some(t) => t, None => current_tick };
//@@ |   let f = match confirmed_tick { Some(t) => t, None => o };
//@@ |   &&& final(self).origin_tick == Some(o)
//@@ |   &&& final(self).waiting == hold(old(self).waiting, o, current_tick, confirmed_tick, maximum_predicted_ticks)
//@@ |   &&& r == (final(self).waiting != old(self).waiting)
//@@ |   &&& final(self).confirmed_tick == confirmed_tick && final(self).maximum_predicted_ticks == maximum_predicted_ticks && final(self).current_tick == current_tick
//@@ |   &&& final(self).prediction_depth == tdiff(current_tick, f) })
//@@ end
}
/// the window over a session's updates
pub open spec fn held(l: Seq<(Tick, Option<Tick>, u16)>) -> bool decreases l.len() {
    if l.len() == 0 { false } else { hold(held(l.drop_last()), l[0].0, l.last().0, l.last().1, l.last().2) }
}
/// running (not held) implies the lead is below the window (or it is the first tick); once the confirmed input is
/// within two ticks of the window (or has caught up with it) the simulation runs again
proof fn runs_inside_the_window(l: Seq<(Tick, Option<Tick>, u16)>)
    requires l.len() > 0
    ensures ({
        let (now, c, max) = l.last();
        let depth = tdiff(now, match c { Some(t) => t, None => l[0].0 });
        &&& (!held(l) && !(c is None && now == l[0].0) ==> depth < max || depth <= 0)
        &&& (depth <= (if max < 2 { 0 } else { max - 2 }) ==> !held(l) || (max == 0 && depth == 0))
        &&& (c is None && now == l[0].0 ==> !held(l))
        &&& (held(l) ==> depth >= 0) })
{}
}
fn main() {}

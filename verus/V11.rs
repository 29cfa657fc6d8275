// V11: the estimate of the remote clock and the control decisions of clock synchronization (Y27).
// Real code: crates/core/sync/src/timeline/{sync,input,remote}.rs.  Floating point is uninterpreted throughout.
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@@ include maps.inc
//@@ include tick.inc
//@@ include op.inc TRAIT=>Sub SPECTRAIT=>SubSpecImpl METH=>sub OBEYS=>obeys_sub_spec REQ=>sub_req SPEC=>sub_spec LHS=>Tick RHS=>Tick OUT=>i32 FN=>tick_diff
//@@ include f32.inc
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Entity(pub u64);
//@@ include durf.inc
// ---------------------------------------------------------------- fixed-point time
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct TickDelta { x: i64 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct TickInstant { x: u64 }
//@@ include op.inc TRAIT=>Sub SPECTRAIT=>SubSpecImpl METH=>sub OBEYS=>obeys_sub_spec REQ=>sub_req SPEC=>sub_spec LHS=>TickInstant RHS=>TickInstant OUT=>TickDelta FN=>ti_diff
//@@ include op.inc TRAIT=>Add SPECTRAIT=>AddSpecImpl METH=>add OBEYS=>obeys_add_spec REQ=>add_req SPEC=>add_spec LHS=>TickInstant RHS=>TickDelta OUT=>TickInstant FN=>ti_add
//@@ include op.inc TRAIT=>Sub SPECTRAIT=>SubSpecImpl METH=>sub OBEYS=>obeys_sub_spec REQ=>sub_req SPEC=>sub_spec LHS=>TickInstant RHS=>TickDelta OUT=>TickInstant FN=>ti_sub
//@@ include op.inc TRAIT=>Add SPECTRAIT=>AddSpecImpl METH=>add OBEYS=>obeys_add_spec REQ=>add_req SPEC=>add_spec LHS=>TickDelta RHS=>TickDelta OUT=>TickDelta FN=>td_add
//@@ include op.inc TRAIT=>Mul SPECTRAIT=>MulSpecImpl METH=>mul OBEYS=>obeys_mul_spec REQ=>mul_req SPEC=>mul_spec LHS=>TickDelta RHS=>F32 OUT=>TickDelta FN=>td_mul
pub uninterp spec fn td_f32(d: TickDelta) -> F32;
pub uninterp spec fn td_i32(d: TickDelta) -> i32;
pub uninterp spec fn td_of(n: int) -> TickDelta;
pub uninterp spec fn td_dur(d: Duration, tick: Duration) -> TickDelta;
pub uninterp spec fn ti_of(t: Tick) -> TickInstant;
impl TickDelta {
    #[verifier::external_body]
    pub fn to_f32(self) -> (r: F32) ensures r == td_f32(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_i32(self) -> (r: i32) ensures r == td_i32(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_i32(n: i32) -> (r: TickDelta) ensures r == td_of(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_tick(t: Tick) -> (r: TickDelta) ensures r == td_of(t.0 as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_duration(d: Duration, tick: Duration) -> (r: TickDelta) ensures r == td_dur(d, tick) { unimplemented!() }
}
impl TickInstant {
    #[verifier::external_body]
    pub fn from(t: Tick) -> (r: TickInstant) ensures r == ti_of(t) { unimplemented!() }
}
/// what is measured of the link (Y26)
pub struct PingManager { pub samples: u32, pub rtt_: Duration, pub jitter_: Duration }
impl PingManager {
    pub fn latency_samples_recv(&self) -> (r: u32) ensures r == self.samples { self.samples }
    pub fn rtt(&self) -> (r: Duration) ensures r == self.rtt_ { self.rtt_ }
    pub fn jitter(&self) -> (r: Duration) ensures r == self.jitter_ { self.jitter_ }
}
/// a remote clock: what TimelineSync reads of it
pub trait SyncTargetTimeline: Sized {
    spec fn estimate(&self) -> TickInstant;
    spec fn initialized(&self) -> bool;
    spec fn heard(&self) -> bool;
    fn current_estimate(&self) -> (r: TickInstant) ensures r == self.estimate();
    fn is_initialized(&self) -> (r: bool) ensures r == self.initialized();
    fn received_packet(&self) -> (r: bool) ensures r == self.heard();
}
/// the events triggered, in order
pub struct Commands { pub shifts: Vec<LocalTimelineShift>, pub diverged: Vec<P2PTimelineDiverged> }
pub struct LocalTimelineShift { pub delta: i32 }
impl Commands {
    pub fn trigger_shift(&mut self, e: LocalTimelineShift) ensures final(self).shifts@ == old(self).shifts@.push(e), final(self).diverged@ == old(self).diverged@ { self.shifts.push(e) }
    pub fn trigger_diverged(&mut self, e: P2PTimelineDiverged) ensures final(self).diverged@ == old(self).diverged@.push(e), final(self).shifts@ == old(self).shifts@ { self.diverged.push(e) }
}
/// an iterator over entities
pub struct Peers { pub l: Vec<Entity>, pub i: usize }
impl Peers {
    pub open spec fn all(&self) -> Seq<Entity> { self.l@ }
    pub open spec fn at(&self) -> int { self.i as int }
    pub fn next(&mut self) -> (r: Option<Entity>)
        ensures final(self).l == old(self).l, match r {
            Some(e) => old(self).i < old(self).l@.len() && e == old(self).l@[old(self).i as int] && final(self).i == old(self).i + 1,
            None => old(self).i >= old(self).l@.len() && final(self).i == old(self).i }
    { if self.i < self.l.len() { let e = self.l[self.i]; self.i = self.i + 1; Some(e) } else { None } }
}
/// the connected links' remote clocks
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Remotes<R> { m: std::collections::HashMap<u64, R> }
impl<R> View for Remotes<R> { type V = Map<Entity, (R, PingManager)>; uninterp spec fn view(&self) -> Map<Entity, (R, PingManager)>; }
pub struct QueryError;
impl<R> Remotes<R> {
    #[verifier::external_body]
    pub fn get(&self, e: Entity) -> (r: Result<(&R, &PingManager), QueryError>)
        ensures match r { Ok((a, b)) => self@.dom().contains(e) && *a == self@[e].0 && *b == self@[e].1, Err(_) => !self@.dom().contains(e) } { unimplemented!() }
}
//@@ source crates/core/sync/src/timeline/sync.rs
//@@ item struct SyncConfig f32=>F32
//@@ item struct SyncContext
//@@ item enum SyncAdjustment f32=>F32
//@@ item struct P2PTimelineDiverged f32=>F32
impl SyncContext {
//@@ fn Default for SyncContext::default
//@@ spec: ensures r.consecutive_errors == 0, r.previous_error_sign
//@@ end
}
/// what one clock error does to the controller
pub open spec fn step(s: SyncContext, c: SyncConfig, off: F32) -> (SyncContext, SyncAdjustment) {
    let sign = fsign(off);
    if fgt(fabs(off), c.max_error_margin) { (SyncContext { consecutive_errors: 0, previous_error_sign: sign }, SyncAdjustment::Resync) }
    else if fgt(fabs(off), c.error_margin) {
        let n = (if s.consecutive_errors == 255 { 255 } else { s.consecutive_errors + 1 }) as u8;
        let s2 = SyncContext { consecutive_errors: n, previous_error_sign: sign };
        if sign != s.previous_error_sign || n < c.consecutive_errors_threshold { (s2, SyncAdjustment::DoNothing) }
        else { (s2, SyncAdjustment::SpeedAdjust(pace(c, off))) }
    } else { (SyncContext { consecutive_errors: 0, previous_error_sign: sign }, SyncAdjustment::DoNothing) }
}
/// the speed that answers an error: against it, in proportion to it
pub open spec fn pace(c: SyncConfig, off: F32) -> F32 {
    let adj = fadd(flit(1000), fmul(fmul(fsub(c.speedup_factor, flit(1000)), fclamp(fdiv(fabs(off), c.max_error_margin), flit(0), flit(1000))), flit(2000)));
    if fgt(off, flit(0)) { fdiv(flit(1000), adj) } else { adj }
}
impl SyncContext {
//@@ fn SyncContext::speed_adjustment
//@@ rename: f32 => F32 ;; 1.0 => F32::lit(1000) ;; 2.0 => F32::lit(2000) ;; 0.0 => F32::lit(0)
//@@ spec: ensures (*final(self), r) == step(*old(self), *config, offset)
//@@ end
}
/// a run of errors: the controller's count is the number of errors beyond the margin since the last one that was not
/// (or was beyond the maximum), and a speed is set only after `threshold` of these, the last two in one direction
pub open spec fn run(s: SyncContext, c: SyncConfig, offs: Seq<F32>) -> SyncContext decreases offs.len() {
    if offs.len() == 0 { s } else { step(run(s, c, offs.drop_last()), c, offs.last()).0 }
}
pub open spec fn late(c: SyncConfig, off: F32) -> bool { fgt(fabs(off), c.error_margin) && !fgt(fabs(off), c.max_error_margin) }
pub open spec fn streak(c: SyncConfig, offs: Seq<F32>) -> nat decreases offs.len() {
    if offs.len() == 0 || !late(c, offs.last()) { 0 } else { streak(c, offs.drop_last()) + 1 }
}
proof fn run_counts(c: SyncConfig, s: SyncContext, offs: Seq<F32>)
    requires s.consecutive_errors == 0
    ensures run(s, c, offs).consecutive_errors as int == (if streak(c, offs) > 255 { 255 } else { streak(c, offs) as int }),
        offs.len() > 0 ==> run(s, c, offs).previous_error_sign == fsign(offs.last())
    decreases offs.len()
{ if offs.len() > 0 { run_counts(c, s, offs.drop_last()); } }
proof fn paced_only_after_a_run(c: SyncConfig, s: SyncContext, offs: Seq<F32>, off: F32)
    requires s.consecutive_errors == 0, step(run(s, c, offs), c, off).1 is SpeedAdjust
    ensures streak(c, offs.push(off)) >= c.consecutive_errors_threshold, late(c, off), offs.len() > 0 ==> fsign(offs.last()) == fsign(off)
{ run_counts(c, s, offs); assert(offs.push(off).drop_last() =~= offs); }
proof fn shifted_only_beyond_the_maximum(c: SyncConfig, s: SyncContext, off: F32)
    ensures step(s, c, off).1 is Resync <==> fgt(fabs(off), c.max_error_margin)
{}
impl SyncConfig {
//@@ fn SyncConfig::jitter_margin
//@@ spec: ensures r == dadd(dmul(jitter, self.jitter_multiple as u32), dscale(tick_duration, self.jitter_margin))
//@@ end
}
//@@ source crates/core/sync/src/timeline/input.rs
//@@ item struct InputDelayConfig
//@@ item struct InputTimelineConfig
//@@ item struct LocalTimelineSync f32=>F32
impl LocalTimelineSync {
//@@ fn Default for LocalTimelineSync::default
//@@ rename: 1.0 => F32::lit(1000)
//@@ spec: ensures r.controller.consecutive_errors == 0, r.input_delay_ticks == 0, r.relative_speed == flit(1000), !r.is_synced
//@@ end
//@@ fn TimelineSync for LocalTimelineSync::sync_context
//@@ spec: ensures *r == old(self).controller, *final(self) == (LocalTimelineSync { controller: *final(r), ..*old(self) })
//@@ end
//@@ fn TimelineSync for LocalTimelineSync::sync_config
//@@ rename: Self :: Config => InputTimelineConfig
//@@ spec: ensures *r == config.sync
//@@ end
    /// the instant the local clock should show
    pub open spec fn objective(&self, remote: TickInstant, c: InputTimelineConfig, p: PingManager, tick: Duration) -> TickInstant {
        ti_sub(ti_add(ti_add(ti_add(ti_add(remote, td_dur(ddiv(p.rtt_, 2), tick)), td_dur(dadd(dmul(p.jitter_, c.sync.jitter_multiple as u32), dscale(tick, c.sync.jitter_margin)), tick)), td_of(1)), td_dur(dscale(tick, c.sync.error_margin), tick)), td_of(self.input_delay_ticks as int))
    }
//@@ fn TimelineSync for LocalTimelineSync::sync_objective
//@@ rename: & Self :: Config => &InputTimelineConfig ;; Tick ( self . input_delay_ticks as u32 ) . into ( ) => TickDelta::from_tick(Tick(self.input_delay_ticks as u32))
//@@ spec: ensures r == self.objective(remote.estimate(), *config, *ping_manager, tick_duration)
//@@ end
//@@ fn TimelineSync for LocalTimelineSync::resync
//@@ spec: ensures r == td_i32(ti_diff(sync_objective, now)), *final(self) == *old(self)
//@@ end
//@@ fn TimelineSync for LocalTimelineSync::is_synced
//@@ spec: ensures r == self.is_synced
//@@ end
//@@ fn TimelineSync for LocalTimelineSync::set_synced
//@@ spec: ensures *final(self) == (LocalTimelineSync { is_synced: synced, ..*old(self) })
//@@ end
//@@ fn TimelineSync for LocalTimelineSync::relative_speed
//@@ rename: f32 => F32
//@@ spec: ensures r == self.relative_speed
//@@ end
//@@ fn TimelineSync for LocalTimelineSync::set_relative_speed
//@@ rename: f32 => F32
//@@ spec: ensures *final(self) == (LocalTimelineSync { relative_speed: ratio, ..*old(self) })
//@@ end
//@@ fn TimelineSync for LocalTimelineSync::reset
//@@ rename: 1.0 => F32::lit(1000)
//@@ spec: ensures final(self).controller.consecutive_errors == 0, final(self).controller.previous_error_sign, !final(self).is_synced, final(self).relative_speed == flit(1000), final(self).input_delay_ticks == old(self).input_delay_ticks
//@@ end
    /// the controller fed with one error: the speed changes as the decision says, or returns towards 1
    pub open spec fn fed(self, c: SyncConfig, off: F32) -> (LocalTimelineSync, SyncAdjustment) {
        let (k, a) = step(self.controller, c, off);
        let v = self.relative_speed;
        (LocalTimelineSync { controller: k, relative_speed: match a { SyncAdjustment::SpeedAdjust(x) => x, SyncAdjustment::Resync => v,
            SyncAdjustment::DoNothing => if fgt(fabs(fsub(v, flit(1000))), flit(1)) { fadd(v, fmul(fsub(flit(1000), v), flit(100))) } else { v } }, ..self }, a)
    }
//@@ source crates/core/sync/src/timeline/sync.rs
//@@ fn TimelineSync::speed_adjustment
//@@ rename: f32 => F32 ;; & Self :: Config => &InputTimelineConfig ;; 1.0 => F32::lit(1000) ;; 0.001 => F32::lit(1) ;; 0.1 => F32::lit(100)
//@@ spec: ensures (*final(self), r) == old(self).fed(config.sync, offset)
//@@ end
//@@ fn TimelineSync::sync
//@@ rename: & Self :: Config => &InputTimelineConfig ;; where Self : Sized , =>
//@@ spec:
//@@ | ensures ({
//@@ |   let o = old(self).objective(remote.estimate(), *config, *ping_manager, tick_duration);
//@@ |   if ping_manager.samples < config.sync.handshake_pings { r is None && *final(self) == *old(self) }
//@@ |   else if !old(self).is_synced { r == Some(td_i32(ti_diff(o, now))) && *final(self) == (LocalTimelineSync { is_synced: true, ..*old(self) }) }
//@@ |   else { let (s, a) = old(self).fed(config.sync, td_f32(ti_diff(now, o))); *final(self) == s && r == (if a is Resync { Some(td_i32(ti_diff(o, now))) } else { None::<i32> }) } })
//@@ end
}
pub struct TickDuration(pub Duration);
pub struct LocalTimelineSyncPlugin<R> { r: R }
//@@ source crates/core/sync/src/timeline/sync.rs
impl<Remote: SyncTargetTimeline> LocalTimelineSyncPlugin<Remote> {
//@@ fn LocalTimelineSyncPlugin::sync_client_server
//@@ rename: trigger ( LocalTimelineShift => trigger_shift ( LocalTimelineShift
//@@ spec:
//@@ | ensures final(commands).diverged@ == old(commands).diverged@, ({
//@@ |   let o = old(sync).objective(remote.estimate(), *config, *ping_manager, tick_duration.0);
//@@ |   let d = td_i32(ti_diff(o, local_now));
//@@ |   // nothing heard this frame, or the delay not measured yet: nothing changes
//@@ |   if !remote.heard() || ping_manager.samples < config.sync.handshake_pings { *final(sync) == *old(sync) && final(commands).shifts@ == old(commands).shifts@ }
//@@ |   else if !old(sync).is_synced { *final(sync) == (LocalTimelineSync { is_synced: true, ..*old(sync) }) && final(commands).shifts@ == old(commands).shifts@.push(LocalTimelineShift { delta: d }) }
//@@ |   else {
//@@ |     let (s, a) = old(sync).fed(config.sync, td_f32(ti_diff(local_now, o)));
//@@ |     *final(sync) == s && final(commands).shifts@ == (if a is Resync { old(commands).shifts@.push(LocalTimelineShift { delta: d }) } else { old(commands).shifts@ })
//@@ |   } })
//@@ end
}
/// what the links of the peers show: all of them started, one of them heard this frame, the one behind us the most
pub struct Seen { pub init: bool, pub sampled: bool, pub lim: Option<(Entity, F32, TickInstant)> }
pub open spec fn look<R: SyncTargetTimeline>(peers: Seq<Entity>, m: Map<Entity, (R, PingManager)>, now: TickInstant, n: int) -> Seen decreases n {
    if n <= 0 { Seen { init: true, sampled: false, lim: None } } else {
        let s = look(peers, m, now, n - 1);
        let e = peers[n - 1];
        if !m.dom().contains(e) || !m[e].0.initialized() { Seen { init: false, ..s } } else {
            let r = m[e].0;
            let lead = td_f32(ti_diff(now, r.estimate()));
            Seen { init: s.init, sampled: s.sampled || r.heard(), lim: if s.lim is None || fgt(lead, (s.lim->0).1) { Some((e, lead, r.estimate())) } else { s.lim } }
        }
    }
}
impl<Remote: SyncTargetTimeline> LocalTimelineSyncPlugin<Remote> {
//@@ fn LocalTimelineSyncPlugin::sync_p2p_peers
//@@ rename: impl Iterator < Item = Entity > => Peers ;; & Query < ( & Remote , & PingManager ) , ( With < Client > , With < Connected > , Without < HostClient > ) , > => &Remotes<Remote> ;; trigger ( LocalTimelineShift => trigger_shift ( LocalTimelineShift ;; trigger ( P2PTimelineDiverged => trigger_diverged ( P2PTimelineDiverged ;; sampled_any |= remote . received_packet ( ) => sampled_any = remote.received_packet() || sampled_any ;; all_initialized &= found_any => all_initialized = all_initialized && found_any ;; 0.0 => F32::lit(0) ;; 1.0 => F32::lit(1000)
//@@ closures: is_none_or
//@@ stepped: vx_it
//@@ loop 0:
//@@ | invariant vx_it.all() == peers, 0 <= vx_it.at() <= peers.len(),
//@@ |     ({ let s = look(peers, remotes@, local_now, vx_it.at()); all_initialized == s.init && sampled_any == s.sampled && limiting == s.lim }), found_any == (vx_it.at() > 0)
//@@ | ensures vx_it.at() == peers.len()
//@@ | decreases peers.len() - vx_it.at()
//@@ start: let ghost peers = synchronization_peers.all();
//@@ spec:
//@@ | requires synchronization_peers.at() == 0
//@@ | ensures ({
//@@ |   let s = look(synchronization_peers.all(), remotes@, local_now, synchronization_peers.all().len() as int);
//@@ |   let ready = s.init && s.sampled && s.lim is Some;
//@@ |   let (worst, remote) = ((s.lim->0).1, (s.lim->0).2);
//@@ |   if !is_synced {
//@@ |     // the one shift of a peer-to-peer session, once every peer is ready
//@@ |     final(commands).diverged@ == old(commands).diverged@ && if ready {
//@@ |       let d = td_i32(ti_diff(if fgt(worst, flit(0)) { remote } else { local_now }, local_now));
//@@ |       *final(sync) == (LocalTimelineSync { is_synced: true, relative_speed: flit(1000), ..*old(sync) }) && final(commands).shifts@ == old(commands).shifts@.push(LocalTimelineShift { delta: d })
//@@ |     } else { *final(sync) == *old(sync) && final(commands).shifts@ == old(commands).shifts@ }
//@@ |   } else {
//@@ |     // never shifted again
//@@ |     final(commands).shifts@ == old(commands).shifts@ && if s.sampled && s.lim is Some {
//@@ |       let (t, a) = old(sync).fed(config.sync, fmax(worst, flit(0)));
//@@ |       if a is Resync { *final(sync) == (LocalTimelineSync { relative_speed: flit(1000), ..t }) && final(commands).diverged@ == old(commands).diverged@.push(P2PTimelineDiverged { limiting_link: (s.lim->0).0, lead: worst }) }
//@@ |       else { *final(sync) == t && final(commands).diverged@ == old(commands).diverged@ }
//@@ |     } else { *final(sync) == *old(sync) && final(commands).diverged@ == old(commands).diverged@ }
//@@ |   } })
//@@ end
}
// ---------------------------------------------------------------- which clock is followed
pub type SmallVec = Vec<Entity>;
//@@ source crates/connection/connection/src/p2p.rs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@@ item enum P2P
//@@ source crates/connection/connection/src/network_topology.rs
//@@ item enum NetworkTopology SmallVec < [ Entity ; 4 ] >=>SmallVec
//@@ item enum NetworkTopologyError SmallVec < [ Entity ; 4 ] >=>SmallVec
//@@ source crates/core/sync/src/timeline/sync.rs
/// Res<NetworkingMetadata>, with its change flag
pub struct NetworkingMetadata { pub mode: NetworkTopology, pub changed: bool }
impl NetworkingMetadata { pub fn is_changed(&self) -> (r: bool) ensures r == self.changed { self.changed } }
/// Ref<P2P>: the component and its change flag
#[derive(Clone, Copy)]
pub struct P2PRef { pub state: P2P, pub changed: bool }
impl P2PRef { pub fn is_changed(&self) -> (r: bool) ensures r == self.changed { self.changed } }
pub struct P2PLinks { pub l: Vec<(Entity, P2PRef)> }
pub struct FixedTime { pub x: u64 }
pub struct LocalTimeline { pub at: TickInstant }
impl LocalTimeline { pub uninterp spec fn read(&self, t: FixedTime) -> TickInstant;
    #[verifier::external_body]
    pub fn instant(&self, t: &FixedTime) -> (r: TickInstant) ensures r == self.read(*t) { unimplemented!() } }
pub trait VxThen: Sized { fn vx_then_some(self, e: Entity) -> Option<Entity>; }
impl VxThen for bool { fn vx_then_some(self, e: Entity) -> (r: Option<Entity>) ensures r == (if self { Some(e) } else { None }) { if self { Some(e) } else { None } } }
pub open spec fn candidates(l: Seq<(Entity, P2PRef)>) -> Seq<Entity> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { let p = candidates(l.drop_last()); if l.last().1.state is Candidate { p.push(l.last().0) } else { p } }
}
proof fn candidates_exist(l: Seq<(Entity, P2PRef)>)
    ensures (candidates(l).len() > 0) == exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).1.state is Candidate
    decreases l.len()
{
    if l.len() > 0 {
        let p = l.drop_last();
        candidates_exist(p);
        assert(forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == l[i]);
        if l.last().1.state is Candidate { assert(l[l.len() - 1].1.state is Candidate); }
        if candidates(p).len() > 0 { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).1.state is Candidate; assert(l[i].1.state is Candidate); }
        if exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).1.state is Candidate {
            let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).1.state is Candidate;
            if i < p.len() { assert(p[i].1.state is Candidate); }
        }
    }
}
/// one aggregate decision over peers: the new controller and the events
pub open spec fn p2p_result<R: SyncTargetTimeline>(peers: Seq<Entity>, m: Map<Entity, (R, PingManager)>, now: TickInstant, is_synced: bool, s: LocalTimelineSync, c: InputTimelineConfig) -> (LocalTimelineSync, Option<LocalTimelineShift>, Option<P2PTimelineDiverged>) {
    let v = look(peers, m, now, peers.len() as int);
    let (worst, remote) = ((v.lim->0).1, (v.lim->0).2);
    if !is_synced {
        if v.init && v.sampled && v.lim is Some { (LocalTimelineSync { is_synced: true, relative_speed: flit(1000), ..s }, Some(LocalTimelineShift { delta: td_i32(ti_diff(if fgt(worst, flit(0)) { remote } else { now }, now)) }), None) } else { (s, None, None) }
    } else if v.sampled && v.lim is Some {
        let (t, a) = s.fed(c.sync, fmax(worst, flit(0)));
        if a is Resync { (LocalTimelineSync { relative_speed: flit(1000), ..t }, None, Some(P2PTimelineDiverged { limiting_link: (v.lim->0).0, lead: worst })) } else { (t, None, None) }
    } else { (s, None, None) }
}
pub open spec fn cs_result<R: SyncTargetTimeline>(r: R, p: PingManager, now: TickInstant, s: LocalTimelineSync, c: InputTimelineConfig, tick: Duration) -> (LocalTimelineSync, Option<LocalTimelineShift>, Option<P2PTimelineDiverged>) {
    let o = s.objective(r.estimate(), c, p, tick);
    let d = LocalTimelineShift { delta: td_i32(ti_diff(o, now)) };
    if !r.heard() || p.samples < c.sync.handshake_pings { (s, None, None) }
    else if !s.is_synced { (LocalTimelineSync { is_synced: true, ..s }, Some(d), None) }
    else { let (t, a) = s.fed(c.sync, td_f32(ti_diff(now, o))); (t, if a is Resync { Some(d) } else { None }, None) }
}
pub open spec fn is_candidate(p: (Entity, P2PRef)) -> bool { p.1.state is Candidate }
/// a change of topology or of the candidates starts synchronization over, except that a running session keeps its clock
pub open spec fn restarted(s: LocalTimelineSync, m: NetworkingMetadata, l: Seq<(Entity, P2PRef)>) -> bool { m.changed || exists|i: int| 0 <= i < l.len() && is_candidate(#[trigger] l[i]) && l[i].1.changed }
/// nothing (the verifier otherwise forgets these after a match with guards)
fn vx_keep(s: &mut LocalTimelineSync, c: &mut Commands) ensures *final(s) == *old(s), *final(c) == *old(c) {}
impl<Remote: SyncTargetTimeline> LocalTimelineSyncPlugin<Remote> {
//@@ closure LocalTimelineSyncPlugin::sync_timelines any#0
//@@ sig: fn vx_any0(vx_p: (Entity, P2PRef)) -> bool
//@@ rename: * state => state.state
//@@ start: let $0 = vx_p;
//@@ spec: ensures r == is_candidate(vx_p)
//@@ end
//@@ closure LocalTimelineSyncPlugin::sync_timelines any#1
//@@ sig: fn vx_any1(vx_p: (Entity, P2PRef)) -> bool
//@@ rename: * state => state.state
//@@ start: let $0 = vx_p;
//@@ spec: ensures r == (is_candidate(vx_p) && vx_p.1.changed)
//@@ end
//@@ closure LocalTimelineSyncPlugin::sync_timelines filter_map
//@@ sig: fn vx_pick(vx_p: (Entity, P2PRef)) -> Option<Entity>
//@@ rename: * state => state.state ;; . then_some => .vx_then_some
//@@ start: let $0 = vx_p;
//@@ spec: ensures r == (if is_candidate(vx_p) { Some(vx_p.0) } else { None })
//@@ end
    /// iter().any(vx_any0)
    fn vx_has(l: &P2PLinks) -> (r: bool) ensures r == (candidates(l.l@).len() > 0)
    {
        proof { candidates_exist(l.l@); }
        let mut i: usize = 0;
        while i < l.l.len() invariant 0 <= i <= l.l@.len(), forall|k: int| 0 <= k < i ==> !is_candidate(#[trigger] l.l@[k]) decreases l.l@.len() - i
        { if Self::vx_any0(l.l[i]) { proof { candidates_exist(l.l@); assert(is_candidate(l.l@[i as int])); assert(l.l@[i as int].1.state is Candidate); } return true; } i += 1; }
        proof { if exists|k: int| 0 <= k < l.l@.len() && (#[trigger] l.l@[k]).1.state is Candidate { let k = choose|k: int| 0 <= k < l.l@.len() && (#[trigger] l.l@[k]).1.state is Candidate; assert(is_candidate(l.l@[k])); } }
        false
    }
    /// iter().any(vx_any1)
    fn vx_changed(l: &P2PLinks) -> (r: bool) ensures r == exists|i: int| 0 <= i < l.l@.len() && is_candidate(#[trigger] l.l@[i]) && l.l@[i].1.changed
    {
        let mut i: usize = 0;
        while i < l.l.len() invariant 0 <= i <= l.l@.len(), forall|k: int| 0 <= k < i ==> !(is_candidate(#[trigger] l.l@[k]) && l.l@[k].1.changed) decreases l.l@.len() - i
        { if Self::vx_any1(l.l[i]) { return true; } i += 1; }
        false
    }
    /// iter().filter_map(vx_pick)
    fn vx_candidates(l: &P2PLinks) -> (r: Peers) ensures r.all() == candidates(l.l@), r.at() == 0
    {
        let mut v: Vec<Entity> = Vec::new();
        let mut i: usize = 0;
        proof { assert(l.l@.take(0) =~= Seq::empty()); }
        while i < l.l.len() invariant 0 <= i <= l.l@.len(), v@ == candidates(l.l@.take(i as int)) decreases l.l@.len() - i
        {
            proof { assert(l.l@.take(i + 1).drop_last() =~= l.l@.take(i as int)); }
            if let Some(e) = Self::vx_pick(l.l[i]) { v.push(e); }
            i += 1;
        }
        proof { assert(l.l@.take(l.l@.len() as int) =~= l.l@); }
        Peers { l: v, i: 0 }
    }
    /// iter().copied()
    fn vx_peers(l: &Vec<Entity>) -> (r: Peers) ensures r.all() == l@, r.at() == 0
    {
        let mut v: Vec<Entity> = Vec::new();
        let mut i: usize = 0;
        while i < l.len() invariant 0 <= i <= l@.len(), v@ =~= l@.take(i as int) decreases l@.len() - i { v.push(l[i]); i += 1; }
        proof { assert(v@ =~= l@); }
        Peers { l: v, i: 0 }
    }
//@@ fn LocalTimelineSyncPlugin::sync_timelines
//@@ hoist: any over p2p_links.iter() => Self::vx_has(&p2p_links)
//@@ hoist: any over p2p_links.iter() => Self::vx_changed(&p2p_links)
//@@ hoist: filter_map over p2p_links.iter() => Self::vx_candidates(&p2p_links)
//@@ rename: Res < TickDuration > => TickDuration ;; Res < Time < Fixed >> => FixedTime ;; Res < NetworkingMetadata > => NetworkingMetadata ;; Res < InputTimelineConfig > => InputTimelineConfig ;; Res < LocalTimeline > => LocalTimeline ;; mut sync : ResMut < LocalTimelineSync > => sync: &mut LocalTimelineSync ;; Query < ( & Remote , & PingManager ) , ( With < Client > , With < Connected > , Without < HostClient > ) , > => Remotes<Remote> ;; Query < ( Entity , Ref < P2P > ) > => P2PLinks ;; mut commands : Commands => commands: &mut Commands ;; & mut sync => sync ;; & mut commands => commands ;; synchronization_peers . iter ( ) . copied ( ) => Self::vx_peers(synchronization_peers)
//@@ after "match & ?metadata ?\. ?mode": vx_keep(sync, commands);
//@@ spec:
//@@ | ensures ({
//@@ |   let l = p2p_links.l@;
//@@ |   let now = local_timeline.read(fixed_time);
//@@ |   let rs = restarted(*old(sync), metadata, l);
//@@ |   let kept = old(sync).is_synced && (!rs || metadata.mode is P2P);
//@@ |   // the controller the decision starts from
//@@ |   let s = if rs { LocalTimelineSync { controller: SyncContext { consecutive_errors: 0, previous_error_sign: true }, relative_speed: flit(1000), is_synced: kept, ..*old(sync) } } else { *old(sync) };
//@@ |   ({
//@@ |       let (t, shift, div) =
//@@ |         if candidates(l).len() > 0 { p2p_result(candidates(l), remotes@, now, kept, s, config) }
//@@ |         else { match metadata.mode {
//@@ |           NetworkTopology::Client(e) => if remotes@.dom().contains(e) { cs_result(remotes@[e].0, remotes@[e].1, now, s, config, tick_duration.0) } else { (s, None, None) },
//@@ |           NetworkTopology::P2P(p) => p2p_result(p@, remotes@, now, kept, s, config),
//@@ |           NetworkTopology::HostClient { .. } => (LocalTimelineSync { is_synced: true, ..s }, None, None),
//@@ |           _ => (s, None, None) } };
//@@ |       *final(sync) == t
//@@ |         && final(commands).shifts@ == (match shift { Some(x) => old(commands).shifts@.push(x), None => old(commands).shifts@ })
//@@ |         && final(commands).diverged@ == (match div { Some(x) => old(commands).diverged@.push(x), None => old(commands).diverged@ }) }) })
//@@ end
}
/// a running peer-to-peer session is never shifted, whatever changes
proof fn running_peers_never_shift<R: SyncTargetTimeline>(peers: Seq<Entity>, m: Map<Entity, (R, PingManager)>, now: TickInstant, s: LocalTimelineSync, c: InputTimelineConfig)
    ensures p2p_result(peers, m, now, true, s, c).1 is None, p2p_result(peers, m, now, true, s, c).0.is_synced == s.is_synced
{}
// ---------------------------------------------------------------- the estimate of the remote clock
//@@ source crates/core/sync/src/timeline/remote.rs
//@@ item struct RemoteEstimate f32=>F32
/// RemoteTimeline(Timeline<RemoteTimelineConfig>), flattened: the wrapper and Timeline deref to the fields used here
pub struct RemoteTimeline { pub context: RemoteEstimate, pub now: TickInstant }
impl RemoteTimeline {
    pub fn now(&self) -> (r: TickInstant) ensures r == self.now { self.now }
    pub fn apply_delta(&mut self, d: TickDelta) ensures *final(self) == (RemoteTimeline { now: ti_add(old(self).now, d), ..*old(self) }) { self.now = self.now + d; }
}
/// how far a measurement moves the estimate
pub open spec fn alpha(e: RemoteEstimate, jitter_ms: F32) -> F32 {
    fsub(e.max_ema_alpha, fmul(fclamp(fdiv(fsub(jitter_ms, flit(1000)), fsub(flit(10000), flit(1000))), flit(0), flit(1000)), fsub(e.max_ema_alpha, e.min_ema_alpha)))
}
/// one packet of the remote peer
pub open spec fn heard_at(t: RemoteTimeline, k: Tick, p: PingManager, tick: Duration) -> RemoteTimeline {
    let e = t.context;
    if p.samples < e.handshake_pings || (e.last_received_tick is Some && (e.last_received_tick->0).0 > k.0) { t } else {
        let raw = ti_diff(ti_add(ti_of(k), td_dur(ddiv(p.rtt_, 2), tick)), t.now);
        let a = alpha(e, millis(p.jitter_));
        RemoteTimeline { context: RemoteEstimate { received_packet: true, last_received_tick: Some(k), first_estimate: false,
            offset: if e.first_estimate { raw } else { td_add(td_mul(e.offset, fsub(flit(1000), a)), td_mul(raw, a)) }, ..e }, now: t.now }
    }
}
impl RemoteTimeline {
//@@ fn RemoteTimeline::last_received_tick
//@@ spec: ensures r == self.context.last_received_tick
//@@ end
//@@ fn RemoteTimeline::ema_alpha
//@@ rename: const JITTER_THRESHOLD_LOW_MS : f32 = 1.0 => let JITTER_THRESHOLD_LOW_MS: F32 = F32::lit(1000) ;; const JITTER_THRESHOLD_HIGH_MS : f32 = 10.0 => let JITTER_THRESHOLD_HIGH_MS: F32 = F32::lit(10000) ;; f32 => F32 ;; 0.0 => F32::lit(0) ;; 1.0 => F32::lit(1000) ;; self . max_ema_alpha => self.context.max_ema_alpha ;; self . min_ema_alpha => self.context.min_ema_alpha
//@@ spec: ensures r == alpha(self.context, current_jitter_ms)
//@@ end
//@@ fn RemoteTimeline::update
//@@ rename: self . handshake_pings => self.context.handshake_pings ;; self . offset => self.context.offset ;; . as_millis ( ) as f32 => .vx_millis() ;; 1.0 => F32::lit(1000)
//@@ closures: is_none_or
//@@ spec: ensures *final(self) == heard_at(*old(self), remote_tick, *ping_manager, tick_duration)
//@@ end
}
impl SyncTargetTimeline for RemoteTimeline {
    open spec fn estimate(&self) -> TickInstant { ti_add(self.now, self.context.offset) }
    open spec fn initialized(&self) -> bool { self.context.last_received_tick is Some }
    open spec fn heard(&self) -> bool { self.context.received_packet }
//@@ fn SyncTargetTimeline for RemoteTimeline::current_estimate
//@@ rename: self . offset => self.context.offset
//@@ end
//@@ fn SyncTargetTimeline for RemoteTimeline::is_initialized
//@@ rename: self . last_received_tick => self.context.last_received_tick
//@@ end
//@@ fn SyncTargetTimeline for RemoteTimeline::received_packet
//@@ rename: self . received_packet => self.context.received_packet
//@@ end
}
/// components by entity
#[verifier::external_body]
pub struct RemoteQuery { m: std::collections::HashMap<u64, RemoteTimeline> }
impl View for RemoteQuery { type V = Map<Entity, RemoteTimeline>; uninterp spec fn view(&self) -> Map<Entity, RemoteTimeline>; }
impl RemoteQuery {
    #[verifier::external_body]
    pub fn get_mut(&mut self, e: Entity) -> (r: Result<&mut RemoteTimeline, QueryError>)
        ensures match r {
            Ok(t) => old(self)@.dom().contains(e) && *t == old(self)@[e] && final(self)@ == old(self)@.insert(e, *final(t)),
            Err(_) => !old(self)@.dom().contains(e) && final(self)@ == old(self)@ } { unimplemented!() }
}
pub struct OnEntity { pub entity: Entity }
impl RemoteTimeline {
    /// a reconnection starts over: the next accepted packet is taken as is
//@@ fn RemoteTimeline::handle_connect
//@@ rename: On < Add , Connected > => OnEntity ;; mut query : Query < & mut RemoteTimeline > => query: &mut RemoteQuery ;; timeline . received_packet => timeline.context.received_packet ;; timeline . offset => timeline.context.offset ;; timeline . first_estimate => timeline.context.first_estimate ;; timeline . last_received_tick => timeline.context.last_received_tick ;; TickDelta :: from ( 0 ) => TickDelta::from_i32(0)
//@@ spec:
//@@ | ensures forall|e: Entity| e != trigger.entity ==> final(query)@.dom().contains(e) == old(query)@.dom().contains(e) && #[trigger] final(query)@[e] == old(query)@[e],
//@@ |     old(query)@.dom().contains(trigger.entity) ==> ({ let t = final(query)@[trigger.entity]; let c = t.context;
//@@ |         !c.received_packet && c.first_estimate && c.last_received_tick is None && c.offset == td_of(0) && t.now == old(query)@[trigger.entity].now
//@@ |         && c.handshake_pings == old(query)@[trigger.entity].context.handshake_pings })
//@@ end
}
/// the estimate after packets `(tick, measurements)` heard at clock readings: it has followed exactly the packets that
/// were not older than the newest heard before, and none before enough latency samples
pub open spec fn heard_all(t: RemoteTimeline, l: Seq<(Tick, PingManager, TickInstant)>, tick: Duration) -> RemoteTimeline decreases l.len() {
    if l.len() == 0 { t } else { let b = heard_all(t, l.drop_last(), tick); heard_at(RemoteTimeline { now: l.last().2, ..b }, l.last().0, l.last().1, tick) }
}
proof fn follows_the_newest(t: RemoteTimeline, l: Seq<(Tick, PingManager, TickInstant)>, tick: Duration)
    requires t.context.last_received_tick is None, t.context.first_estimate
    ensures ({ let c = heard_all(t, l, tick).context;
        &&& c.first_estimate == (c.last_received_tick is None)
        &&& c.handshake_pings == t.context.handshake_pings
        &&& (c.last_received_tick is Some ==> forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]).1.samples >= c.handshake_pings ==> l[i].0.0 <= (c.last_received_tick->0).0)
        &&& (c.last_received_tick is None ==> forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).1.samples < c.handshake_pings) })
    decreases l.len()
{ if l.len() > 0 {
    follows_the_newest(t, l.drop_last(), tick);
    let p = l.drop_last();
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] == (if i < p.len() { p[i] } else { l.last() }) by {}
} }
}
fn main() {}

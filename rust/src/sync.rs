//! Y26 pings and round-trip estimates, Y27 clock following, Y28 input delay and prediction window.
#[cfg(not(kani))]
use crate::natives;
use crate::{Src, harnesses};
use core::time::Duration;
use lightyear_core::tick::Tick;
use lightyear_sync::timeline::input::PredictionWindowWait;

harnesses! { sync;
    // the wait decision, for every state the resource can be in after one or two updates
    fn y28_window(s) {
        let mut w = PredictionWindowWait::default();
        // the session's first observed tick
        let origin = Tick(s.u32());
        let max0 = s.u16();
        let c0 = if s.bool() { Some(Tick(s.u32())) } else { None };
        let mut waiting = false;
        let ch = w.update(origin, c0, max0);
        let d0 = step(&w, origin, origin, c0, max0, &mut waiting, ch);
        let cur = Tick(s.u32());
        let max1 = s.u16();
        let c1 = if s.bool() { Some(Tick(s.u32())) } else { None };
        let ch = w.update(cur, c1, max1);
        step(&w, origin, cur, c1, max1, &mut waiting, ch);
        let cur = Tick(s.u32());
        let max1 = s.u16();
        let c1 = if s.bool() { Some(Tick(s.u32())) } else { None };
        let ch = w.update(cur, c1, max1);
        step(&w, origin, cur, c1, max1, &mut waiting, ch);
        w.reset();
        assert!(!w.is_waiting() && w.confirmed_tick().is_none());
        let cur = Tick(s.u32());
        let ch = w.update(cur, None, max1);
        assert!(!ch && !w.is_waiting(), "after a reset the next observed tick is the origin");
    }
}

/// contract of one wait decision
fn step(w: &PredictionWindowWait, origin: Tick, cur: Tick, conf: Option<Tick>, max: u16, waiting: &mut bool, changed: bool) {
    let from = conf.unwrap_or(origin);
    let exact = cur.0 as i64 - from.0 as i64;
    let depth = exact.clamp(i32::MIN as i64, i32::MAX as i64) as i32;
    assert!(w.prediction_depth() == depth, "depth is the lead over the confirmed frontier");
    assert!(w.confirmed_tick() == conf && w.maximum_predicted_ticks() == max);
    let now = w.is_waiting();
    assert!(changed == (now != *waiting), "reports exactly the changes");
    if conf.is_none() && cur == origin {
        assert!(!now, "the session's first tick is never held back");
    } else if *waiting {
        assert!(now == (depth > (max as i32 - 2).max(0)), "resumes only with two ticks of headroom");
    } else {
        assert!(now == (depth >= max as i32), "waits exactly at the limit");
    }
    *waiting = now;
}

#[cfg(not(kani))]
mod nat {
    use super::*;
    use bevy_app::{App, Last, PostUpdate, PreUpdate};
    use bevy_ecs::prelude::*;
    use bevy_time::{Fixed, Real, Time, TimeUpdateStrategy, Virtual};
    
    use lightyear_connection::client::{Client, Connected, Disconnected};
    use lightyear_connection::network_topology::{NetworkTopology, NetworkingMetadata};
    use lightyear_connection::p2p::P2P;
    use lightyear_core::id::{PeerId, RemoteId};
    use lightyear_core::plugin::CorePlugins;
    use lightyear_core::prelude::LocalTimeline;
    use lightyear_core::tick::TickDuration;
    use lightyear_core::time::{Instant, Overstep, PositiveTickDelta, TickDelta, TickInstant};
    use lightyear_core::timeline::{LocalTimelineShift, NetworkTimeline, TimelineConfig};
    use lightyear_link::{Link, LinkStats, Linked};
    use lightyear_sync::ping::manager::{PingConfig, PingManager};
    use lightyear_sync::ping::message::{Ping, Pong};
    use lightyear_sync::ping::store::PingId;
    use lightyear_sync::plugin::SyncSystems;
    use lightyear_sync::timeline::input::{InputDelayConfig, InputTimelineConfig, LocalTimelineSync};
    use lightyear_sync::timeline::remote::RemoteTimeline;
    use lightyear_sync::timeline::sync::{LocalTimelineSyncPlugin, P2PTimelineDiverged, SyncConfig, SyncTargetTimeline, TimelineSync};
    use std::collections::VecDeque;

    pub fn us(n: u64) -> Duration { Duration::from_micros(n) }



    pub fn at(i: TickInstant) -> f64 { i.tick().0 as f64 + i.overstep().value().to_bits() as f64 / 65536.0 }
    pub fn near(a: f64, b: f64, rel: f64, abs: f64) -> bool { (a - b).abs() <= rel * a.abs().max(b.abs()) + abs }
    pub fn tickdur<S: Src>(s: &mut S) -> Duration { us([1000u64, 15625, 10000, 16667, 50000, 100000][s.below(6)]) }
    fn dur<S: Src>(s: &mut S) -> Duration { us(match s.range(0, 5) { 0 => 0, 1 => s.range(1000, 3000), 2 => s.range(1000, 60000), 3 => s.range(50000, 150000), 4 => s.range(1000, 2_000_000), _ => s.range(1000, 120_000_000) }) }

    /// reference estimator
    #[derive(Default, Clone, Copy)]
    pub struct Est { n: u64, srtt: f64, dev: f64, lo: f64, hi: f64 }
    impl Est {
        pub fn add(&mut self, x: f64) {
            self.n += 1;
            if self.n == 1 { *self = Est { n: 1, srtt: x, dev: x / 2.0, lo: x, hi: x }; return; }
            self.lo = self.lo.min(x);
            self.hi = self.hi.max(x);
            let cap = (self.srtt + 3.0 * self.dev).min(self.srtt * 3.0).min(self.srtt + 0.5).max(self.srtt * 1.2);
            let x = if self.n > 2 && self.srtt > 0.0 { x.min(cap) } else { x };
            self.dev += (( x - self.srtt).abs() - self.dev) / 6.0;
            self.srtt += (x - self.srtt) / 12.0;
            // kept to the nanosecond
            self.dev = (self.dev * 1e9).round() / 1e9;
            self.srtt = (self.srtt * 1e9).round() / 1e9;
        }
        pub fn check(&self, m: &PingManager) {
            let (r, j) = (m.rtt().as_secs_f64(), m.jitter().as_secs_f64());
            let t = 2e-6 + self.n as f64 * 1e-8;
            assert!(near(r, self.srtt, 2e-4, t), "smoothed round-trip estimate: {r} instead of {} after {} samples", self.srtt, self.n);
            assert!(near(j, self.dev / 2.0, 2e-4, t), "jitter estimate");
            if self.n > 0 { assert!(r >= self.lo * (1.0 - 1e-5) - t && r <= self.hi * (1.0 + 1e-5) + t, "the estimate stays within the range of the samples"); }
            else { assert!(r == 0.0 && j == 0.0); }
        }
    }

    // ---- a remote whose estimate the harness controls
    #[derive(Component, Default)]
    pub struct FakeCfg;
    #[derive(Component, Default)]
    pub struct Fake { pub now: TickInstant, pub est: TickInstant, pub init: bool, pub recv: bool }
    impl TimelineConfig for FakeCfg { type Context = (); type Timeline = Fake; }
    impl NetworkTimeline for Fake {
        type Config = FakeCfg;
        fn now(&self) -> TickInstant { self.now }
        fn tick(&self) -> Tick { self.now.tick() }
        fn overstep(&self) -> Overstep { self.now.overstep() }
        fn set_now(&mut self, now: TickInstant) { self.now = now }
        fn apply_delta(&mut self, d: TickDelta) { self.now = self.now + d }
    }
    impl SyncTargetTimeline for Fake {
        fn current_estimate(&self) -> TickInstant { self.est }
        fn is_initialized(&self) -> bool { self.init }
        fn received_packet(&self) -> bool { self.recv }
    }
    pub fn inst(x: f64) -> TickInstant { TickInstant::from_tick_and_overstep(Tick(x.floor() as u32), Overstep::new(fixed::types::U0F16::from_bits(((x - x.floor()) * 65536.0) as u16))) }

    /// What pacing must do with the sequence of clock errors
    pub struct Pace { any: u32, same: u32, prev: Option<bool> }
    impl Pace {
        pub fn new() -> Pace { Pace { any: 0, same: 0, prev: None } }
        /// returns None if the error is beyond recovery; checks the speed chosen otherwise
        pub fn sample(&mut self, c: &SyncConfig, err: f64, before: f32, after: f32) -> Option<()> {
            let a = err.abs();
            let (lo, hi) = (c.error_margin as f64, c.max_error_margin as f64);
            let pos = err >= 0.0;
            let prev = self.prev.replace(pos);
            if a > hi { self.any = 0; self.same = 0; return None; }
            let relaxed = || {
                let want = if (before - 1.0).abs() > 0.001 { before + (1.0 - before) * 0.1 } else { before };
                assert!((after - want).abs() < 1e-5, "without an adjustment the speed moves a tenth of the way back to 1");
            };
            if a <= lo { self.any = 0; self.same = 0; relaxed(); return Some(()); }
            self.any += 1;
            self.same = if prev == Some(pos) { self.same + 1 } else { 1 };
            let th = c.consecutive_errors_threshold as u32;
            let adj = 1.0 + (c.speedup_factor as f64 - 1.0) * (a / hi).min(1.0) * 2.0;
            let ratio = if pos { 1.0 / adj } else { adj } as f32;
            let adjusted = (after - ratio).abs() < 1e-5;
            let must = self.same >= th.max(2);
            let may = self.any >= th && prev.is_none_or(|p| p == pos);
            if must { assert!(adjusted, "repeated errors in one direction change the speed in proportion to the error, against its direction"); }
            else if !may { relaxed(); }
            else if !adjusted { relaxed(); }
            Some(())
        }
    }

    pub fn pm_with(rtts: &[Duration]) -> PingManager {
        let mut m = PingManager::default();
        for r in rtts { m.v_sample(*r) }
        m
    }
    pub fn cfg<S: Src>(s: &mut S) -> SyncConfig {
        SyncConfig {
            jitter_multiple: s.range(0, 5) as u8,
            jitter_margin: [0.0f32, 0.5, 1.0, 2.0][s.below(4)],
            handshake_pings: s.range(0, 5) as u8,
            error_margin: [0.25f32, 0.5, 1.0, 3.0][s.below(4)],
            max_error_margin: [4.0f32, 10.0, 20.0][s.below(3)],
            consecutive_errors_threshold: [0u8, 1, 2, 3, 3, 5, 20][s.below(7)],
            speedup_factor: [1.05f32, 1.01, 1.2, 1.5][s.below(4)],
        }
    }
    fn away(x: f64, edges: &[f64], eps: f64) -> bool { edges.iter().all(|e| (x - e).abs() > eps && (x + e).abs() > eps) }

    #[derive(Resource, Default)]
    struct Seen { shifts: Vec<i32>, div: Vec<(Entity, f32)>, now: f64, ran: u32 }

    natives! {
        fn y26_pings(s) {
            let interval = us(s.range(1, 8) * 25000);
            let td = tickdur(s);
            let mut m = PingManager::new(PingConfig { ping_interval: interval });
            let base = Instant::now();
            let mut now = base;
            let mut sent: VecDeque<(u16, Instant, bool)> = VecDeque::new(); // the last 128 pings, and whether they were answered
            let (mut next, mut acc) = (0u16, Duration::ZERO);
            let mut latest: Option<u16> = None;
            let mut est = Est::default();
            let mut pend: Vec<(u16, Instant)> = vec![];
            let mut pongs = 0u32;
            let mut clock = Time::<Real>::default();
            let n = s.range(5, 60);
            if s.range(0, 3) == 0 {
                // reach far ids: many pings without answers
                let k = [100u64, 300, 33000, 65531][s.below(4)];
                for _ in 0..k {
                    clock.advance_by(interval);
                    m.v_update(&clock);
                    assert!(m.v_prepare(now) == Some(PingId(next)), "pings are numbered consecutively");
                    sent.push_back((next, now, false));
                    if sent.len() > 128 { sent.pop_front(); }
                    next = next.wrapping_add(1);
                    now += us(100);
                }
                acc = Duration::ZERO;
            }
            for _ in 0..n {
                match s.range(0, 12) {
                    0..=3 => {
                        let d = if s.range(0, 3) == 0 { interval } else { us(s.range(0, 60000)) };
                        now += d;
                        clock.advance_by(d);
                        m.v_update(&clock);
                        acc += d;
                        let r = m.v_prepare(now);
                        if acc >= interval {
                            assert!(r == Some(PingId(next)), "a ping is sent once per interval, with the next identifier");
                            acc = Duration::ZERO;
                            sent.push_back((next, now, false));
                            if sent.len() > 128 { sent.pop_front(); }
                            next = next.wrapping_add(1);
                            assert!(m.v_prepare(now).is_none(), "no second ping in the same interval");
                        } else { assert!(r.is_none(), "no ping before the interval has passed"); }
                    }
                    4..=8 => {
                        let id = match s.range(0, 5) {
                            0 => s.u16(),
                            1 => next.wrapping_sub(s.range(0, 140) as u16),
                            2 => next.wrapping_sub(128).wrapping_add(s.range(0, 3) as u16).wrapping_sub(1),
                            _ if sent.is_empty() => 0,
                            _ => sent[s.below(sent.len())].0,
                        };
                        now += us(s.range(0, 50000));
                        let proc = match s.range(0, 4) { 0 => 0, 1 => s.range(0, 0x4_0000_0000), 2 => s.range(0, 1 << 36), 3 => (1 << 63) - 1 + s.range(0, 3), _ => s.u64() };
                        let ft = PositiveTickDelta { value: fixed::types::U32F32::from_bits(proc) };
                        let known = sent.iter().position(|x| x.0 == id && !x.2);
                        m.v_pong(&Pong { ping_id: PingId(id), frame_time: ft }, now, td);
                        pongs += 1;
                        if let Some(k) = known {
                            let t0 = sent[k].1;
                            sent[k].2 = true;
                            let newer = latest.is_none_or(|l| (id.wrapping_sub(l) as i16) > 0);
                            if newer {
                                latest = Some(id);
                                let p = (proc as f64 / 4294967296.0) * td.as_secs_f64();
                                est.add(((now - t0).as_secs_f64() - p).max(0.0));
                            }
                        }
                    }
                    9 => { let id = s.u16(); m.v_buffer_ping(&Ping { id: PingId(id) }, now); pend.push((id, now)); }
                    10 => {
                        let r: Vec<(u16, Instant)> = m.v_drain().into_iter().map(|(p, t)| (p.ping_id.0, t)).collect();
                        assert!(r == pend, "every received ping is answered once, in order, with its arrival time");
                        pend.clear();
                    }
                    11 if s.range(0, 3) == 0 => {
                        m.v_reset();
                        sent.clear();
                        next = 0;
                        acc = Duration::ZERO;
                        latest = None;
                        est = Est::default();
                        pend.clear();
                        pongs = 0;
                    }
                    _ => { let d = us(s.range(0, 30000)); now += d; clock.advance_by(d); m.v_update(&clock); acc += d; }
                }
                assert!(m.latency_samples_recv() as u64 == est.n, "a sample is taken exactly for a newer answer to an outstanding ping");
                assert!(m.pongs_recv == pongs);
                est.check(&m);
            }
        }
        fn y26_estimator(s) {
            let mut m = PingManager::default();
            let mut e = Est::default();
            let base = dur(s);
            let calm = s.coin();
            for _ in 0..s.range(1, 60) {
                let x = if calm && s.range(0, 9) != 0 { base + us(s.range(0, 2000)) } else { dur(s) };
                m.v_sample(x);
                e.add(x.as_secs_f64());
                assert!(m.latency_samples_recv() as u64 == e.n);
                e.check(&m);
            }
        }
        fn y26_codec(s) {
            use lightyear_serde::{ToBytes, reader::Reader, writer::Writer};
            let id = s.u16();
            let raw = match s.range(0, 2) { 0 => s.u64() & 0xffff_ffff_ffff, 1 => s.range(0, 1 << 34), _ => s.u64() };
            let p = Pong { ping_id: PingId(id), frame_time: PositiveTickDelta { value: fixed::types::U32F32::from_bits(raw) } };
            let mut w = Writer::with_capacity(32);
            p.to_bytes(&mut w).unwrap();
            Ping { id: PingId(id) }.to_bytes(&mut w).unwrap();
            let b = w.into_bytes();
            assert!(b.len() == p.bytes_len() + 2, "announced length");
            let mut r = Reader::from(b.clone());
            let q = Pong::from_bytes(&mut r).unwrap();
            assert!(q.ping_id.0 == id && q.frame_time.value.to_bits() == raw & !0xff_ffff, "pong survives the wire, its fraction to 8 bits");
            assert!(Ping::from_bytes(&mut r).unwrap().id.0 == id);
            let cut = s.below(p.bytes_len());
            assert!(Pong::from_bytes(&mut Reader::from(b.slice(..cut))).is_err(), "truncated pong");
        }
        fn y27_remote(s) {
            let td = tickdur(s);
            let tds = td.as_secs_f64();
            let mut pm = PingManager::default();
            let mut t = RemoteTimeline::default();
            let mut est = Est::default();
            let mut last: Option<u32> = None;
            let mut first = true;
            let mut tick = [0u32, 5, 1000, 1_000_000][s.below(4)];
            let mut off = 0.0f64; // estimate minus free-running clock
            let mut clk = 0.0f64;
            for _ in 0..s.range(3, 40) {
                match s.range(0, 9) {
                    0..=2 => { let x = us(match s.range(0, 2) { 0 => s.range(20000, 24000), 1 => s.range(0, 100000), _ => s.range(0, 400000) }); pm.v_sample(x); est.add(x.as_secs_f64()); }
                    3 | 4 => {
                        let d = us(s.range(0, 60000));
                        let before = at(t.current_estimate());
                        t.apply_duration(d, td);
                        clk += d.as_secs_f64() / tds;
                        assert!(near(at(t.current_estimate()), before + d.as_secs_f64() / tds, 1e-6, 1e-3), "the estimate advances with real time");
                    }
                    _ => {
                        let fwd = s.range(0, 3) != 0;
                        let k = s.range(0, 6) as u32;
                        let x = if fwd { tick + k } else { tick.saturating_sub(k) };
                        let before = at(t.current_estimate());
                        t.v_update(Tick(x), &pm, td);
                        let after = at(t.current_estimate());
                        let usable = est.n >= 3;
                        if !usable || last.is_some_and(|l| x < l) {
                            assert!(after == before && t.last_received_tick() == last.map(Tick), "stale ticks, and ticks before latency is known, change nothing");
                        } else {
                            tick = x;
                            last = Some(x);
                            assert!(t.last_received_tick() == Some(Tick(x)) && t.received_packet());
                            let meas = x as f64 + pm.rtt().as_secs_f64() / 2.0 / tds;
                            let raw = meas - clk;
                            let jm = pm.jitter().as_millis() as f64;
                            let alpha = 0.1 - ((jm - 1.0) / 9.0).clamp(0.0, 1.0) * 0.08;
                            let want = if first { raw } else { off + alpha * (raw - off) };
                            first = false;
                            if clk + want < 0.5 || clk + raw < 0.5 { return; }
                            assert!(near(after, clk + want, 1e-6, 2e-3 + raw.abs().max(off.abs()) * 2e-7), "estimate: first measurement exact, then smoothed by the jitter-dependent factor");
                            off = want;
                        }
                        assert!(t.is_initialized() == last.is_some());
                    }
                }
                // keep reference and clock in step (rounding of each advance is checked above)
                off = bitsdiff(&t);
                clk = at(t.now());
            }
        }
        fn y27_objective(s) {
            let td = tickdur(s);
            let tds = td.as_secs_f64();
            let c = cfg(s);
            let conf = InputTimelineConfig::new(c, InputDelayConfig::no_input_delay());
            let mut sy = LocalTimelineSync::default();
            let delay = s.range(0, 12) as u16;
            sy.v_set_input_delay(delay);
            let n = s.range(0, 6);
            let rtts: Vec<Duration> = (0..n).map(|_| us(s.range(0, 300000))).collect();
            let pm = pm_with(&rtts);
            let est = s.range(1000, 100000) as f64 + s.range(0, 65535) as f64 / 65536.0;
            let f = Fake { est: inst(est), ..Default::default() };
            let want = est + pm.rtt().as_secs_f64() / 2.0 / tds + pm.jitter().as_secs_f64() * c.jitter_multiple as f64 / tds
                + c.jitter_margin as f64 + 1.0 + c.error_margin as f64 - delay as f64;
            let o = at(sy.sync_objective(&f, &conf, &pm, td));
            assert!(near(o, want, 1e-6, 2e-3), "objective: remote + half rtt + jitter margin + pipeline + deadband - input delay");
            // first synchronization: nothing until enough samples, then straight onto the objective
            let now = want + s.range(0, 40000) as f64 / 100.0 - 200.0;
            if now < 10.0 { return; }
            let nowi = inst(now);
            let r = sy.sync(nowi, &f, &conf, &pm, td);
            if n < c.handshake_pings as u64 { assert!(r.is_none() && !sy.is_synced(), "no synchronization before enough latency samples"); }
            else {
                assert!(sy.is_synced());
                let shift = r.expect("first sample aligns the clock");
                assert!(((want - at(nowi)) - shift as f64).abs() <= 0.5 + 5e-3, "the first synchronization lands on the objective, to the nearest tick");
            }
        }
        fn y27_pacing(s) {
            let td = tickdur(s);
            let c = cfg(s);
            let conf = InputTimelineConfig::new(c, InputDelayConfig::no_input_delay());
            let mut sy = LocalTimelineSync::default();
            let pm = pm_with(&[us(20000), us(20000), us(20000), us(20000), us(20000)]);
            let f = Fake { est: inst(5000.0), ..Default::default() };
            let obj = at(sy.sync_objective(&f, &conf, &pm, td));
            sy.set_synced(true);
            let mut p = Pace::new();
            let hi = c.max_error_margin as f64;
            let lo = c.error_margin as f64;
            let mut bias = s.coin();
            // a long streak of one sign outlives any small counter
            let long = s.range(0, 15) == 0;
            for _ in 0..if long { 280 } else { s.range(1, 40) } {
                if !long && s.range(0, 6) == 0 { bias = !bias; }
                let mag = match if long { 5 } else { s.range(0, 9) } { 0 => s.range(0, 1000) as f64 / 1000.0 * lo, 1 => hi + s.range(1, 500) as f64 / 100.0, _ => lo + (hi - lo) * s.range(1, 999) as f64 / 1000.0 };
                let err = if bias { mag } else { -mag };
                if !away(err, &[lo, hi], 0.02) { continue; }
                let nowi = inst(obj + err);
                let err = at(nowi) - obj;
                if err.abs() < 0.01 { continue; }
                let before = sy.relative_speed();
                let r = sy.sync(nowi, &f, &conf, &pm, td);
                // the error as measured (to 2^-16 tick) decides; ratios are compared to 1e-5 relative
                match p.sample(&c, err, before, sy.relative_speed()) {
                    None => {
                        let k = r.expect("an error beyond the maximum realigns the clock");
                        assert!(((obj - at(nowi)) - k as f64).abs() <= 0.5 + 5e-3, "realigned to the nearest tick");
                    }
                    Some(()) => assert!(r.is_none(), "an error within bounds never moves ticks"),
                }
                assert!(sy.relative_speed() > 0.3 && sy.relative_speed() < 2.1);
            }
        }
        fn y27_app(s) {
            let td = us(10000);
            let mut app = App::new();
            app.add_plugins((CorePlugins { tick_duration: td }, LocalTimelineSyncPlugin::<Fake>::default()));
            app.insert_resource(TimeUpdateStrategy::ManualDuration(us([10000u64, 10000, 7000, 23000][s.below(4)])));
            app.init_resource::<NetworkingMetadata>();
            app.init_resource::<Seen>();
            let c = SyncConfig { handshake_pings: 3, ..cfg(s) };
            app.insert_resource(InputTimelineConfig::new(c, InputDelayConfig::no_input_delay()));
            app.add_observer(|t: On<LocalTimelineShift>, mut r: ResMut<Seen>| r.shifts.push(t.delta));
            app.add_observer(|t: On<P2PTimelineDiverged>, mut r: ResMut<Seen>| r.div.push((t.limiting_link, t.lead)));
            app.add_systems(PostUpdate, (|l: Res<LocalTimeline>, f: Res<Time<Fixed>>, mut r: ResMut<Seen>| { r.now = at(l.instant(&f)); r.ran += 1; }).before(SyncSystems::Sync));
            app.world_mut().resource_mut::<LocalTimeline>().apply_delta(1000);
            let p2p = s.range(0, 3) != 0;
            let np = if p2p { s.range(1, 3) as usize } else { 1 };
            let peers: Vec<Entity> = (0..np).map(|k| {
                let pm = pm_with(&[us(20000); 4]);
                let e = app.world_mut().spawn((Client, RemoteId(PeerId::Netcode(k as u64 + 1)), Fake::default(), pm)).id();
                if p2p { app.world_mut().entity_mut(e).insert(P2P::Candidate); }
                e
            }).collect();
            let mut conn = vec![false; np];
            let mut init = vec![false; np];
            let mut joined = false;
            let mut synced = false;
            let mut pace = Pace::new();
            let mut host = false;
            app.update();
            let mut meta_seen = app.world().resource_ref::<NetworkingMetadata>().last_changed();
            { let mut r = app.world_mut().resource_mut::<Seen>(); assert!(r.shifts.is_empty() && r.div.is_empty()); r.ran = 0; }
            for _ in 0..s.range(5, 30) {
                // network events
                let k = s.below(np);
                match s.range(0, 7) {
                    0..=2 if !conn[k] => {
                        app.world_mut().entity_mut(peers[k]).insert(Connected);
                        conn[k] = true;
                        if !p2p {
                            app.world_mut().resource_mut::<NetworkingMetadata>().mode = NetworkTopology::Client(peers[0]);
                            synced = false;
                            pace = Pace::new();
                        }
                    }
                    3 if conn.iter().all(|x| *x) && p2p && !joined && synced => {
                        joined = true;
                        for e in &peers { app.world_mut().entity_mut(*e).insert(P2P::Joined); }
                        app.world_mut().resource_mut::<NetworkingMetadata>().mode = NetworkTopology::P2P(peers.iter().copied().collect());
                        pace = Pace::new();
                    }
                    4 if s.range(0, 3) == 0 && !p2p && conn[0] => {
                        app.world_mut().entity_mut(peers[0]).remove::<Connected>().insert(Disconnected { reason: lightyear_connection::client::DisconnectedReason::UserRequested(None) });
                        app.world_mut().resource_mut::<NetworkingMetadata>().mode = NetworkTopology::Undefined;
                        conn[0] = false;
                        synced = false;
                        pace = Pace::new();
                    }
                    5 => { let on = s.coin(); let mut w = app.world_mut().resource_mut::<PredictionWindowWait>(); w.reset(); w.update(Tick(10), None, 3); w.update(Tick(if on { 20 } else { 11 }), None, 3); }
                    6 if !p2p && !conn[0] && s.range(0, 2) == 0 => { host = !host;
                        let m = if host { NetworkTopology::HostClient { server: peers[0], client: peers[0] } } else { NetworkTopology::Undefined };
                        app.world_mut().resource_mut::<NetworkingMetadata>().mode = m; synced = false; pace = Pace::new(); }
                    _ => {}
                }
                if host && conn[0] { host = false; }
                // the set of candidates changed before the session runs: synchronization starts over
                let mut again = false;
                if p2p && !joined && synced && s.range(0, 5) == 0 {
                    app.world_mut().entity_mut(peers[k]).insert(P2P::Candidate);
                    again = true;
                    synced = false;
                    pace = Pace::new();
                }
                // remote estimates relative to the clock before this frame
                let now0 = app.world().resource::<LocalTimeline>().tick().0 as f64;
                let mut recv = vec![false; np];
                for k in 0..np {
                    if s.range(0, 1) == 0 && !init[k] { init[k] = true; }
                    recv[k] = s.range(0, 3) != 0 && init[k];
                    let spread = match s.range(0, 4) { 0 => 40, 1 => 2, _ => 12 };
                    let e = now0 - spread as f64 / 2.0 + s.range(0, spread * 100) as f64 / 100.0;
                    let mut f = app.world_mut().get_mut::<Fake>(peers[k]).unwrap();
                    f.est = inst(e);
                    f.init = init[k];
                    f.recv = recv[k];
                }
                let restart = app.world().resource_ref::<NetworkingMetadata>().last_changed() != meta_seen;
                meta_seen = app.world().resource_ref::<NetworkingMetadata>().last_changed();
                let before = { let l = app.world().resource::<LocalTimelineSync>(); (if restart || again { 1.0 } else { l.relative_speed() }, l.is_synced()) };
                app.update();
                let seen = { let mut r = app.world_mut().resource_mut::<Seen>(); let x = (core::mem::take(&mut r.shifts), core::mem::take(&mut r.div), r.now, r.ran); r.ran = 0; x };
                assert!(seen.3 == 1);
                let now = seen.2;
                let l = app.world().resource::<LocalTimelineSync>();
                let (speed, is) = (l.relative_speed(), l.is_synced());
                let lead = |k: usize| now - at(app.world().get::<Fake>(peers[k]).unwrap().est);
                let cons: Vec<usize> = (0..np).filter(|k| conn[*k] && init[*k]).collect();
                if host && !p2p {
                    assert!(is && seen.0.is_empty(), "a host client needs no remote sample");
                    synced = true;
                } else if !p2p {
                    assert!(seen.1.is_empty());
                    if !conn[0] { assert!(seen.0.is_empty() && !is, "no synchronization without a connection"); }
                    else if !recv[0] { assert!(seen.0.is_empty() && is == synced, "synchronizes only on fresh packets"); if synced { assert!(speed == before.0); } }
                    else {
                        let f = app.world().get::<Fake>(peers[0]).unwrap();
                        let pm = app.world().get::<PingManager>(peers[0]).unwrap();
                        let obj = at(l.sync_objective(f, app.world().resource::<InputTimelineConfig>(), pm, td));
                        let err = now - obj;
                        assert!(is);
                        let aligned = |v: &Vec<i32>| { assert!(v.len() == 1 && ((obj - now) - v[0] as f64).abs() <= 0.5 + 5e-3, "aligned once, to the nearest tick"); };
                        if !synced { aligned(&seen.0); synced = true; pace = Pace::new(); }
                        else {
                            if !away(err, &[c.error_margin as f64, c.max_error_margin as f64], 0.01) || err.abs() < 0.01 { return; }
                            match pace.sample(&c, err, before.0, speed) { None => aligned(&seen.0), Some(()) => assert!(seen.0.is_empty(), "no tick shift within bounds") }
                        }
                    }
                } else if !synced {
                    assert!(seen.1.is_empty());
                    let ready = cons.len() == np && recv.iter().any(|x| *x);
                    assert!(is == ready, "P2P synchronizes once every candidate is connected and initialized and one just reported");
                    if ready {
                        synced = true;
                        pace = Pace::new();
                        let worst = cons.iter().map(|k| lead(*k)).fold(f64::MIN, f64::max);
                        assert!(seen.0.len() == 1 && speed == 1.0);
                        let want = if worst > 0.0 { -worst } else { 0.0 };
                        assert!((seen.0[0] as f64 - want).abs() <= 0.5 + 5e-3, "a leading peer aligns to the slowest estimate; others do not move");
                    } else { assert!(seen.0.is_empty()); }
                } else {
                    assert!(seen.0.is_empty(), "a running P2P session never jumps ticks");
                    assert!(is, "a running P2P session stays synchronized");
                    let sampled = cons.iter().any(|k| recv[*k]);
                    let worst = cons.iter().map(|k| (*k, lead(*k))).fold((usize::MAX, f64::MIN), |a, b| if b.1 > a.1 { b } else { a });
                    if !joined && before.1 == false { return; }
                    if !sampled { assert!(seen.1.is_empty(), "no decision without a fresh sample"); }
                    else {
                        let e = worst.1.max(0.0);
                        if !away(e, &[c.error_margin as f64, c.max_error_margin as f64], 0.01) { return; }
                        match pace.sample(&c, e, before.0, speed) {
                            None => { assert!(seen.1.len() == 1 && (seen.1[0].1 as f64 - worst.1).abs() < 5e-3 && speed == 1.0, "divergence is reported"); }
                            Some(()) => assert!(seen.1.is_empty(), "no divergence within bounds"),
                        }
                        assert!(speed <= 1.0 + 1e-6, "P2P pacing only slows a leader down");
                    }
                }
                // speed of the simulation
                let wait = app.world().resource::<PredictionWindowWait>().is_waiting();
                let client = !p2p && conn[0];
                let vs = app.world().resource::<Time<Virtual>>().relative_speed();
                let want = if is && wait && (client || p2p) { 0.0 } else if p2p || (is && (client || host)) { speed } else { 1.0 };
                assert!((vs - want).abs() < 1e-6, "virtual time runs at the pacing speed, stops at the prediction limit, and is untouched otherwise");
            }
        }
        fn y26_exchange(s) {
            // two real peers exchanging pings and pongs over their links; the wall clock brackets every sample
            let td = us(10000);
            let mut app = App::new();
            app.add_plugins((bevy_app::TaskPoolPlugin::default(), CorePlugins { tick_duration: td }, lightyear_messages::plugin::MessagePlugin, lightyear_sync::client::ClientPlugin));
            app.insert_resource(TimeUpdateStrategy::ManualDuration(us(10000)));
            app.init_resource::<NetworkingMetadata>();
            app.finish();
            app.cleanup();
            let mk = |app: &mut App, k: u64| {
                let e = app.world_mut().spawn((Client, Link::default(), Linked, RemoteId(PeerId::Netcode(k)), PingManager::new(PingConfig { ping_interval: us(20000) }))).id();
                app.world_mut().entity_mut(e).insert(Connected);
                e
            };
            let e = [mk(&mut app, 1), mk(&mut app, 2)];
            app.world_mut().resource_mut::<LocalTimeline>().apply_delta(500);
            // hold the traffic towards the second peer back by one round: the answers come late, in one direction
            let lag = s.range(0, 2) as usize;
            // a slow frame on the answering side is not network latency
            let slow = lag == 0 && s.range(0, 3) == 0;
            if slow { app.add_systems(bevy_app::Update, || std::thread::sleep(Duration::from_millis(8))); }
            let (mut busy, mut gap, mut end) = (Duration::ZERO, Duration::ZERO, None::<std::time::Instant>);
            let mut q: [VecDeque<Vec<bytes::Bytes>>; 2] = [VecDeque::new(), VecDeque::new()];
            for _ in 0..lag { q[0].push_back(vec![]); q[1].push_back(vec![]); }
            let t0 = std::time::Instant::now();
            let mut samples = [0u32; 2];
            let mut recv_tick = [None; 2];
            for _ in 0..s.range(16, 24) {
                let f0 = std::time::Instant::now();
                if let Some(x) = end { gap += f0 - x; }
                app.update();
                busy = busy.max(f0.elapsed().saturating_sub(Duration::from_millis(8)));
                end = Some(std::time::Instant::now());
                let tick = app.world().resource::<LocalTimeline>().tick();
                for i in 0..2 {
                    let out: Vec<bytes::Bytes> = app.world_mut().get_mut::<Link>(e[i]).unwrap().send.drain().collect();
                    q[1 - i].push_back(out);
                }
                for i in 0..2 {
                    let m = app.world().get::<PingManager>(e[i]).unwrap();
                    assert!(m.latency_samples_recv() >= samples[i]);
                    samples[i] = m.latency_samples_recv();
                    let total = t0.elapsed();
                    assert!(m.rtt() <= total + us(10), "a round trip cannot take longer than the session");
                    let l = app.world().get::<Link>(e[i]).unwrap();
                    assert!(l.stats.rtt == m.rtt() && l.stats.jitter == m.jitter(), "the link carries the estimates");
                    let r = app.world().get::<RemoteTimeline>(e[i]).unwrap();
                    if let Some(x) = r.last_received_tick() { assert!(recv_tick[i].is_none_or(|p| p <= x) && x <= tick, "remote tick estimates come from received packets"); recv_tick[i] = Some(x); }
                    assert!(r.last_received_tick().is_none() || samples[i] >= 3);

                    for p in q[i].pop_front().unwrap_or_default() { let mut l = app.world_mut().get_mut::<Link>(e[i]).unwrap(); l.recv.push_raw(lightyear_link::recv_payload_from_bytes(p)); }
                }
            }
            assert!(samples[0] >= 2 && samples[1] >= 2, "pings are answered and measured");
            let both = [app.world().get::<PingManager>(e[0]).unwrap().pongs_recv, app.world().get::<PingManager>(e[1]).unwrap().pongs_recv];
            assert!(both[0] == samples[0] && both[1] == samples[1], "on a lossless ordered link every answer is a sample");
            if slow { for i in 0..2 { assert!(app.world().get::<PingManager>(e[i]).unwrap().rtt() <= busy * 3 + us(500) + gap, "time spent answering is not counted as latency"); } }
            // a new connection starts from nothing
            let k = s.below(2);
            app.world_mut().entity_mut(e[k]).insert(Disconnected { reason: lightyear_connection::client::DisconnectedReason::UserRequested(None) });
            app.world_mut().entity_mut(e[k]).remove::<Connected>();
            app.world_mut().flush();
            app.world_mut().entity_mut(e[k]).remove::<Disconnected>().insert(Connected);
            app.world_mut().flush();
            let m = app.world().get::<PingManager>(e[k]).unwrap();
            assert!(m.latency_samples_recv() == 0 && m.rtt() == Duration::ZERO && m.pongs_recv == 0, "statistics do not survive a reconnection");
            let r = app.world().get::<RemoteTimeline>(e[k]).unwrap();
            assert!(r.last_received_tick().is_none() && !r.is_initialized() && r.current_estimate() == r.now(), "the remote estimate restarts with the connection");
        }
        fn y28_input_delay(s) {
            let td = us([10000u64, 20000, 1000, 100000][s.below(4)]);
            let min = s.range(0, 6) as u16;
            let maxd = min.saturating_add(match s.range(0, 5) { 0 => 0, 5 => u16::MAX, _ => s.range(0, 6) as u16 });
            let pred = match s.range(0, 6) { 0 => 0, 1 => u16::MAX, 2 => u16::MAX - 2, _ => s.range(1, 20) as u16 };
            let c = cfg(s);
            let ic = InputDelayConfig { minimum_input_delay_ticks: min, maximum_input_delay_before_prediction: maxd, maximum_predicted_ticks: pred };
            let rtt = us(match s.range(0, 4) { 0 => 0, 1 => s.range(0, 400_000), 2 => s.range(0, 100_000_000), 3 => s.range(0, 1 << 40), _ => s.range(0, 50) * td.as_micros() as u64 });
            let jitter = us(s.range(0, 20000));
            let stats = LinkStats { rtt, jitter };
            let r = ic.v_delay(stats, &c, td);
            let eff = rtt.as_secs_f64() + jitter.as_secs_f64() * c.jitter_multiple as f64 + td.as_secs_f64() * c.jitter_margin as f64;
            let x = eff / td.as_secs_f64();
            // the latency in whole ticks, up to f32 rounding at a tick boundary
            let eps = 1e-5 + x * 3e-7;
            let lat = |v: f64| { let n = (v.ceil().max(0.0)).min(65535.0) as u32; (if ic.is_lockstep() { n + 2 } else { n }).min(65535) };
            let spec = |n: u32| -> u32 {
                let (min, maxd, pred) = (min as u32, maxd as u32, pred as u32);
                if n <= min { min } else if n <= maxd { n } else if n <= (pred + maxd).min(65535) { maxd } else { n - pred }
            };
            let (a, b) = (lat(x - eps), lat(x + eps));
            assert!((a..=b).any(|n| spec(n) == r as u32), "input delay follows the configured ladder");
            assert!(r >= min, "never below the configured minimum");
            // latency is covered by input delay plus allowed prediction
            assert!(r as u32 + pred as u32 >= a.min(65535), "delay and prediction together cover the latency");
            assert!(ic.is_lockstep() == (pred == 0));
        }
        fn y28_aggregate(s) {
            let td = us(10000);
            let mut app = App::new();
            app.insert_resource(TickDuration(td));
            app.init_resource::<NetworkingMetadata>();
            app.add_plugins((CorePlugins { tick_duration: td }, lightyear_sync::client::ClientPlugin));
            let ic = InputDelayConfig { minimum_input_delay_ticks: s.range(0, 3) as u16, maximum_input_delay_before_prediction: 3 + s.range(0, 3) as u16, maximum_predicted_ticks: s.range(0, 6) as u16 };
            let c = SyncConfig { jitter_multiple: 0, jitter_margin: 0.0, ..Default::default() };
            let n = s.range(1, 4) as usize;
            let mut rtts: Vec<Option<Duration>> = (0..n).map(|_| if s.range(0, 6) == 0 { None } else { Some(us(s.range(0, 200) * 1000 + 500)) }).collect();
            let es: Vec<Entity> = rtts.iter().map(|r| { let mut e = app.world_mut().spawn_empty(); if let Some(r) = r { let mut l = Link::default(); l.stats.rtt = *r; e.insert(l); } e.id() }).collect();
            let kind = s.range(0, 5);
            let mut used: Vec<usize> = vec![];
            let mode = match kind {
                0 => { used.push(0); NetworkTopology::Client(es[0]) }
                1 => { used.push(0); NetworkTopology::HostClient { server: es[n - 1], client: es[0] } }
                2 => { used = (0..n).collect(); NetworkTopology::P2P(es.iter().copied().collect()) }
                3 => NetworkTopology::Server(es[0]),
                4 => NetworkTopology::Undefined,
                _ => { used = (0..n).collect(); NetworkTopology::Undefined }
            };
            app.world_mut().resource_mut::<NetworkingMetadata>().mode = mode;
            let cand = kind == 5 || (kind == 0 && s.coin());
            if cand {
                used.clear();
                for (k, e) in es.iter().enumerate() {
                    if kind == 5 || s.coin() { app.world_mut().entity_mut(*e).insert(P2P::Candidate); used.push(k); }
                    else { app.world_mut().entity_mut(*e).insert(P2P::Inactive); }
                }
                if used.is_empty() { used.push(0); if kind != 0 { return; } }
            }
            for (k, e) in es.iter().enumerate() { rtts[k] = app.world().get::<Link>(*e).map(|l| l.stats.rtt); }
            let one = |r: Duration| ic.v_delay(LinkStats { rtt: r, jitter: Duration::ZERO }, &c, td);
            let want = if used.is_empty() { None } else { used.iter().try_fold(0u16, |m, k| rtts[*k].map(|r| m.max(one(r)))) };
            app.insert_resource(InputTimelineConfig::new(c, ic));
            app.world_mut().flush();
            let got = app.world().resource::<LocalTimelineSync>().input_delay();
            assert!(got == want.unwrap_or(ic.minimum_input_delay_ticks), "input delay is the largest any relevant link needs; the minimum while unknown");
            // the links change; nothing happens until the timeline shifts
            for (k, e) in es.iter().enumerate() { if rtts[k].is_some() { let r = us(s.range(0, 200) * 1000 + 500); rtts[k] = Some(r); app.world_mut().get_mut::<Link>(*e).unwrap().stats.rtt = r; } }
            let want2 = if used.is_empty() { None } else { used.iter().try_fold(0u16, |m, k| rtts[*k].map(|r| m.max(one(r)))) };
            let t0 = app.world().resource::<LocalTimeline>().tick();
            app.world_mut().trigger(LocalTimelineShift { delta: 7 });
            app.world_mut().flush();
            assert!(app.world().resource::<LocalTimeline>().tick().0 == t0.0 + 7, "a shift moves the local tick by exactly its amount");
            assert!(app.world().resource::<LocalTimelineSync>().input_delay() == want2.unwrap_or(got), "recomputed at a shift; kept while unknown");
        }
    }
    fn bitsdiff(t: &RemoteTimeline) -> f64 { at(t.current_estimate()) - at(t.now()) }
}
#[cfg(not(kani))]
pub use nat::NATIVES;

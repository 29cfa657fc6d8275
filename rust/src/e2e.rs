//! End to end over the real TransportPlugin: two peers, every channel mode, a hostile network.
#![cfg(not(kani))]
use crate::{Src, natives};
use bevy_app::{App, TaskPoolPlugin};
use bevy_ecs::prelude::*;
use bevy_time::{Real, Time};
use bytes::Bytes;
use core::time::Duration;
use lightyear_core::prelude::LocalTimeline;
use lightyear_link::{Link, LinkMtu, Linked, recv_payload_from_bytes};
use lightyear_transport::channel::registry::ChannelKind;
use lightyear_transport::plugin::TransportPlugin;
use lightyear_transport::prelude::*;
use lightyear_transport::verif::packet as vpk;
use lightyear_transport::packet::priority_manager::verif as vpr;
use lightyear_transport::verif::header as vh;
use lightyear_transport::verif::message as vm;
use std::collections::{BTreeMap, BTreeSet};

struct C0;
struct C1;
struct C2;
struct C3;
struct C4;
struct C5;
const N: usize = 6;

fn ms(n: u64) -> Duration { Duration::from_millis(n) }

pub struct Rig {
    app: App,
    e: [Entity; 2],
    kinds: [ChannelKind; N],
    ids: [u16; N],
    mtu: usize,
    /// packets in flight towards each end
    net: [Vec<Bytes>; 2],
    /// per end, per channel: bytes in sending order, and the id the send call returned
    sent: [Vec<Vec<(Bytes, Option<u16>)>>; 2],
    /// per end, per channel: received (index into the peer's sent list)
    got: [Vec<Vec<usize>>; 2],
    /// per end, per channel: acknowledged message ids
    acks: [Vec<BTreeSet<u16>>; 2],
    nacks: [Vec<BTreeSet<u16>>; 2],
    /// per end, per channel: message index -> arrived pieces known to be complete (ground truth is delivery)
    dup: bool,
    /// send through the shared queue (processed when packets are built) or directly
    via_queue: bool,
    sent_packets: usize,
}

impl Rig {
    pub fn new<S: Src>(s: &mut S) -> Rig {
        let factor = 1.5;
        let set = ReliableSettings { rtt_resend_factor: factor, rtt_resend_min_delay: ms([0u64, 30][s.below(2)]) };
        let modes = [
            ChannelMode::UnorderedUnreliable, ChannelMode::UnorderedUnreliableWithAcks, ChannelMode::SequencedUnreliable,
            ChannelMode::UnorderedReliable(set), ChannelMode::SequencedReliable(set), ChannelMode::OrderedReliable(set)];
        let freq = if s.below(4) == 0 { ms(25) } else { Duration::ZERO };
        let mut reg = ChannelRegistry::default();
        let st = |m: usize, p: f32| ChannelSettings { mode: modes[m], send_frequency: freq, priority: p, ..Default::default() };
        let (k0, i0) = reg.add_channel::<C0>(st(0, 1.0));
        let (k1, i1) = reg.add_channel::<C1>(st(1, 2.0));
        let (k2, i2) = reg.add_channel::<C2>(st(2, 1.0));
        let (k3, i3) = reg.add_channel::<C3>(st(3, 0.5));
        let (k4, i4) = reg.add_channel::<C4>(st(4, 1.0));
        let (k5, i5) = reg.add_channel::<C5>(st(5, 1.0));
        let mtu = [100usize, 200, 1200][s.below(3)];
        let mut app = App::new();
        app.add_plugins(TaskPoolPlugin::default());
        app.insert_resource(Time::<Real>::default());
        app.init_resource::<LocalTimeline>();
        let prio = s.coin();
        let via_queue = s.below(4) == 0;
        let mk = |reg: &ChannelRegistry| {
            let mut t = if prio { Transport::new(PriorityConfig::new(u32::MAX)) } else { Transport::default() };
            macro_rules! ch { ($($c:ty)*) => { $( t.add_channel_send_from_registry::<$c>(reg); t.add_channel_receive_from_registry::<$c>(reg); )* } }
            ch!(C0 C1 C2 C3 C4 C5);
            t
        };
        let (ta, tb) = (mk(&reg), mk(&reg));
        app.insert_resource(reg);
        app.add_plugins(TransportPlugin);
        app.finish();
        app.cleanup();
        let w = app.world_mut();
        let link = || {
            let mut l = Link::default().with_mtu(LinkMtu::new(mtu));
            l.stats.rtt = ms(20);
            l
        };
        let a = w.spawn((link(), Linked, ta)).id();
        let b = w.spawn((link(), Linked, tb)).id();
        let vv = || vec![vec![]; N];
        Rig { app, e: [a, b], kinds: [k0, k1, k2, k3, k4, k5], ids: [i0, i1, i2, i3, i4, i5], mtu, net: [vec![], vec![]],
            sent: [vv(), vv()], got: [vec![vec![]; N], vec![vec![]; N]], acks: [vec![BTreeSet::new(); N], vec![BTreeSet::new(); N]], nacks: [vec![BTreeSet::new(); N], vec![BTreeSet::new(); N]], dup: false, via_queue, sent_packets: 0 }
    }
    pub fn send<S: Src>(&mut self, s: &mut S, end: usize, ch: usize) {
        let k = self.sent[end][ch].len();
        let big = s.below(6) == 0;
        let n = if big { s.below(self.mtu * 4) } else { s.below(24) };
        let mut v = vec![end as u8, ch as u8, k as u8, (k >> 8) as u8];
        v.extend((0..n).map(|i| (i * 7 + k * 13 + (i >> 8)) as u8));
        let b = Bytes::from(v);
        let kind = self.kinds[ch];
        let prio = [1.0f32, 5.0][s.below(2)];
        let mut t = self.app.world_mut().get_mut::<Transport>(self.e[end]).unwrap();
        let id = if self.via_queue { t.send_erased(kind, b.clone(), prio).unwrap(); None } else { t.send_mut_erased(kind, b.clone(), prio).unwrap().map(|m| m.0) };
        self.sent[end][ch].push((b, id));
    }
    pub fn frame(&mut self, dt: Duration) {
        self.app.world_mut().resource_mut::<Time<Real>>().advance_by(dt);
        self.app.update();
        for i in 0..2 {
            let mtu = self.mtu;
            let mut out = vec![];
            {
                let mut l = self.app.world_mut().get_mut::<Link>(self.e[i]).unwrap();
                for p in l.send.drain() { out.push(p); }
            }
            for p in out {
                assert!(p.len() <= mtu, "a packet larger than the link mtu was sent");
                self.sent_packets += 1;
                self.net[1 - i].push(p);
            }
            self.drain(i);
        }
    }
    fn drain(&mut self, i: usize) {
        let ids = self.ids;
        let kinds = self.kinds;
        let mut t = self.app.world_mut().get_mut::<Transport>(self.e[i]).unwrap();
        for ch in 0..N {
            let r = t.channel_receive_mut(ids[ch]).unwrap();
            while let Some((_, b, _id)) = r.read_message() {
                assert!(b.len() >= 4 && b[1] as usize == ch && b[0] as usize == 1 - i, "delivered on the wrong channel");
                let k = b[2] as usize | (b[3] as usize) << 8;
                let orig = &self.sent[1 - i][ch];
                assert!(k < orig.len() && orig[k].0 == b, "delivered bytes differ from the sent message");
                let got = &mut self.got[i][ch];
                match ch {
                    0 | 1 => assert!(self.dup || !got.contains(&k), "unreliable message delivered more often than the network delivered it"),
                    2 | 4 => assert!(got.last().is_none_or(|l| *l < k), "sequenced channel delivered an older message"),
                    3 => assert!(!got.contains(&k), "reliable message delivered twice"),
                    _ => assert!(got.len() == k, "ordered channel delivered out of order"),
                }
                got.push(k);
            }
        }
        for ch in 0..N {
            let sends = t.channel_send(kinds[ch]).unwrap();
            for m in sends.message_acks() {
                assert!(self.acks[i][ch].insert(m.0), "message acknowledged twice");
                assert!((m.0 as usize) < self.sent[i][ch].len(), "acknowledged a message that was never sent");
            }
            for m in sends.message_nacks() { self.nacks[i][ch].insert(m.0); assert!((m.0 as usize) < self.sent[i][ch].len(), "nack of a message never sent"); }
        }
    }
    /// deliver some packets of the network towards `i`
    pub fn deliver<S: Src>(&mut self, s: &mut S, i: usize, lossless: bool) {
        let mut l = vec![];
        let n = self.net[i].len();
        if lossless { l.append(&mut self.net[i]); }
        else {
            for _ in 0..s.below(n + 1) {
                if self.net[i].is_empty() { break; }
                let k = if s.coin() { 0 } else { s.below(self.net[i].len()) };
                match s.below(8) {
                    0 | 1 => { self.net[i].remove(k); }
                    2 if self.dup => { l.push(self.net[i][k].clone()); }
                    _ => { l.push(self.net[i].remove(k)); }
                }
            }
        }
        let mut link = self.app.world_mut().get_mut::<Link>(self.e[i]).unwrap();
        for p in l { link.recv.push_raw(recv_payload_from_bytes(p)); }
    }
    /// acknowledged reliable / with-acks messages have really been received by the peer
    pub fn truth(&self) {
        for i in 0..2 {
            for ch in [3usize, 5, 1] {
                for m in &self.acks[i][ch] {
                    // message ids are assigned in sending order on these channels
                    assert!(ch == 5 || self.got[1 - i][ch].contains(&(*m as usize)), "acknowledged a message the peer never received");
                }
            }
        }
    }
    fn settled(&self) -> bool {
        (0..2).all(|i| [3usize, 5].iter().all(|c| self.got[1 - i][*c].len() == self.sent[i][*c].len() && self.acks[i][*c].len() == self.sent[i][*c].len())
            && self.acks[i][4].len() == self.sent[i][4].len())
    }
}

natives! {
    fn e2e_delivery(s) {
        let mut r = Rig::new(s);
        r.dup = s.coin();
        let lossy = s.below(4) > 0;
        for _ in 0..5 + s.below(40) {
            for _ in 0..s.below(4) { let (e, c) = (s.below(2), s.below(N)); r.send(s, e, c); }
            for i in 0..2 { r.deliver(s, i, !lossy); }
            r.frame(ms(s.range(1, 40)));
        }
        // from here the network is reliable: everything must get through
        let mut frames = 0;
        while !r.settled() {
            frames += 1;
            assert!(frames < 200, "a reliable message was never delivered or acknowledged");
            for i in 0..2 { r.deliver(s, i, true); }
            r.frame(ms(20));
        }
        for i in 0..2 {
            if let Some(last) = r.sent[i][4].len().checked_sub(1) { assert!(r.got[1 - i][4].last() == Some(&last), "the newest sequenced reliable message was not delivered"); }
        }
        // and then the link falls silent
        for _ in 0..12 { for i in 0..2 { r.deliver(s, i, true); } r.frame(ms(20)); }
        let before = r.sent_packets;
        for _ in 0..3 { for i in 0..2 { r.deliver(s, i, true); } r.frame(ms(20)); }
        assert!(r.sent_packets == before, "peers keep exchanging packets although everything is delivered and acknowledged");
    }
    /// without loss or duplication everything sent on any channel arrives exactly once (sequenced: the newest per flush order)
    fn e2e_perfect_link(s) {
        let mut r = Rig::new(s);
        // with a realistic estimate no packet is presumed lost; with a short one, an acknowledgement may come too late
        let slow = s.coin();
        if slow { for e in r.e { r.app.world_mut().get_mut::<Link>(e).unwrap().stats.rtt = ms(200); } }
        for _ in 0..3 + s.below(10) {
            for _ in 0..s.below(5) { let (e, c) = (s.below(2), s.below(N)); r.send(s, e, c); }
            for i in 0..2 { r.deliver(s, i, true); }
            r.frame(ms(s.range(1, 40)));
        }
        for _ in 0..40 { for i in 0..2 { r.deliver(s, i, true); } r.frame(ms(26)); }
        for i in 0..2 { for ch in [0usize, 1, 3, 5] {
            let got: BTreeSet<usize> = r.got[1 - i][ch].iter().copied().collect();
            assert!(got.len() == r.got[1 - i][ch].len() && got.len() == r.sent[i][ch].len(), "perfect link, but not everything was delivered exactly once");
        } }
        for i in 0..2 { for ch in [1usize, 3, 4, 5] {
            assert!(ch == 1 && !slow || r.acks[i][ch].len() == r.sent[i][ch].len(), "perfect link, but not everything was acknowledged");
            assert!(r.acks[i][ch].union(&r.nacks[i][ch]).count() == r.sent[i][ch].len(), "a message is neither acknowledged nor reported lost"); } }
    }
    /// acknowledgements tell the truth about single-channel traffic under loss
    /// one sender, one allowance per flush
    fn t14_flush(s) {
        let mtu = [100usize, 300, 1200][s.below(3)];
        let fsz = vpk::fragment_size(mtu).unwrap();
        let far = ReliableSettings { rtt_resend_factor: 1.0, rtt_resend_min_delay: Duration::from_secs(3600) };
        let mut reg = ChannelRegistry::default();
        let pr = [[1.0f32, 1.0, 1.0], [4.0, 0.5, 1.0], [0.25, 2.0, 1.0]][s.below(3)];
        let (k0, i0) = reg.add_channel::<C0>(ChannelSettings { mode: ChannelMode::UnorderedUnreliable, priority: pr[0], retry_unsent_messages: true, ..Default::default() });
        let (k1, i1) = reg.add_channel::<C1>(ChannelSettings { mode: ChannelMode::UnorderedUnreliable, priority: pr[1], retry_unsent_messages: false, ..Default::default() });
        let (k3, i3) = reg.add_channel::<C3>(ChannelSettings { mode: ChannelMode::UnorderedReliable(far), priority: pr[2], ..Default::default() });
        let (kinds, ids) = ([k0, k1, k3], [i0, i1, i3]);
        let mut app = App::new();
        app.add_plugins(TaskPoolPlugin::default());
        app.insert_resource(Time::<Real>::default());
        app.init_resource::<LocalTimeline>();
        let mut t = Transport::new(PriorityConfig::new(1).with_burst_size(1));
        t.add_channel_send_from_registry::<C0>(&reg);
        t.add_channel_send_from_registry::<C1>(&reg);
        t.add_channel_send_from_registry::<C3>(&reg);
        app.insert_resource(reg);
        app.add_plugins(TransportPlugin);
        app.finish();
        app.cleanup();
        let e = app.world_mut().spawn((Link::default().with_mtu(LinkMtu::new(mtu)), Linked, t)).id();
        struct Msg { ch: usize, prio: f32, parts: usize, sent: Vec<bool>, flushes: u32, gone: bool, len: usize }
        let mut msgs: Vec<Msg> = vec![];
        let flushes = 1 + s.below(8);
        for flush in 0..flushes + 1 {
            let last = flush == flushes;
            for _ in 0..if last { 0 } else { s.below(8) } {
                let ch = s.below(3);
                let prio = [1.0f32, 2.0, 8.0][s.below(3)];
                let len = if s.below(5) == 0 { fsz + 1 + s.below(2 * fsz) } else { 4 + s.below(40.min(fsz - 4)) };
                let k = msgs.len();
                // every byte of a message is its number, so that any piece tells where it belongs
                let b = Bytes::from(vec![k as u8; len]);
                app.world_mut().get_mut::<Transport>(e).unwrap().send_mut_erased(kinds[ch], b, prio).unwrap();
                let parts = if len > fsz { len.div_ceil(fsz) } else { 1 };
                msgs.push(Msg { ch, prio, parts, sent: vec![false; parts], flushes: 0, gone: false, len });
            }
            let burst = [1u32, 40, 150, 400, 2000][s.below(5)];
            let limited = !last && s.below(6) > 0;
            let mut cfg = PriorityConfig::new(1).with_burst_size(burst);
            cfg.enabled = limited;
            vpr::set_quota(&mut app.world_mut().get_mut::<Transport>(e).unwrap(), cfg);
            let t0 = std::time::Instant::now();
            app.world_mut().resource_mut::<Time<Real>>().advance_by(ms(10));
            app.update();
            let spent = t0.elapsed().as_secs();
            let out: Vec<Bytes> = { let mut l = app.world_mut().get_mut::<Link>(e).unwrap(); l.send.drain().collect() };
            let total: usize = out.iter().map(|p| p.len()).sum();
            if limited { assert!(total as u64 <= burst as u64 + spent + 1, "more bytes were sent than the allowance permits"); }
            for m in msgs.iter_mut() { if !m.gone { m.flushes += 1; } }
            let mut now: Vec<(usize, usize)> = vec![];
            for p in out {
                assert!(p.len() <= mtu, "packet larger than the mtu");
                let mut r = lightyear_serde::reader::Reader::from(p);
                let h = vh::decode(&mut r).expect("header");
                let mut add = |ch: u16, piece: usize, b: &Bytes| {
                    let k = b[0] as usize;
                    assert!(k < msgs.len() && b.iter().all(|x| *x as usize == k) && ids[msgs[k].ch] == ch && piece < msgs[k].parts, "corrupted message");
                    let want = if msgs[k].parts == 1 { msgs[k].len } else { fsz.min(msgs[k].len - piece * fsz) };
                    assert!(b.len() == want, "corrupted message length");
                    assert!(!msgs[k].gone, "a discarded or completely sent message was sent");
                    assert!(!msgs[k].sent[piece], "sent twice");
                    msgs[k].sent[piece] = true;
                    now.push((k, piece));
                };
                if h.0 == 1 {
                    let ch = <u16 as lightyear_serde::ToBytes>::from_bytes(&mut r).unwrap();
                    let f = vm::fragment_decode(&mut r).unwrap();
                    add(ch, f.1 as usize, &f.4);
                }
                while r.has_remaining() {
                    let ch = <u16 as lightyear_serde::ToBytes>::from_bytes(&mut r).unwrap();
                    let n = <u8 as lightyear_serde::ToBytes>::from_bytes(&mut r).unwrap();
                    for _ in 0..n { let (_, b) = vm::single_decode(&mut r).unwrap(); add(ch, 0, &b); }
                }
            }
            // a reliable message gains its own priority at every flush
            let eff = |m: &Msg| (if m.ch == 2 { m.prio * m.flushes as f32 } else { m.prio }) * pr[m.ch];
            let held = msgs.iter().any(|m| !m.gone && m.sent.iter().any(|x| !x));
            if limited {
                let low = now.iter().map(|(k, _)| eff(&msgs[*k])).fold(f32::INFINITY, f32::min);
                for m in &msgs { if !m.gone && m.sent.iter().any(|x| !x) { assert!(eff(m) <= low, "a message was held back while one of lower priority was sent"); } }
            } else {
                assert!(!held, "not everything was sent although bandwidth is not limited");
            }
            for m in msgs.iter_mut() {
                if m.sent.iter().all(|x| *x) { m.gone = true; }
                // told to discard what bandwidth held back, but for messages partly sent
                if m.ch == 1 && limited && m.sent.iter().all(|x| !x) { m.gone = true; }
            }
        }
        // the last flush was unlimited: nothing was lost but what the channel was told to discard
        for m in &msgs { assert!(m.ch == 1 || m.sent.iter().all(|x| *x), "lost by the bandwidth limit"); }
    }
    fn e2e_ack_truth(s) {
        let mut r = Rig::new(s);
        let ch = [1usize, 3, 1][s.below(3)];
        for _ in 0..10 + s.below(40) {
            for _ in 0..s.below(3) {
                let n = r.sent[0][ch].len();
                let big = s.below(4) == 0;
                let len = if big { s.below(r.mtu * 3) } else { s.below(20) };
                let mut v = vec![0u8, ch as u8, n as u8, (n >> 8) as u8];
                v.extend((0..len).map(|i| i as u8));
                let b = Bytes::from(v);
                let kind = r.kinds[ch];
                let id = r.app.world_mut().get_mut::<Transport>(r.e[0]).unwrap().send_mut_erased(kind, b.clone(), 1.0).unwrap();
                assert!(id.map(|m| m.0) == Some(n as u16), "message ids are consecutive");
                r.sent[0][ch].push((b, Some(n as u16)));
            }
            r.deliver(s, 0, false);
            r.deliver(s, 1, false);
            r.frame(ms(s.range(1, 60)));
            r.truth();
        }
        if ch == 1 {
            // nothing arrives any more: every message's fate is decided and nothing of it remains
            for _ in 0..30 { r.frame(ms(1000)); r.net = [vec![], vec![]]; }
            r.truth();
            for (m, _) in r.sent[0][1].iter().enumerate() {
                let (a, n) = (r.acks[0][1].contains(&(m as u16)), r.nacks[0][1].contains(&(m as u16)));
                assert!(a || n, "the fate of a message was never reported");
            }
            let e = r.e[0];
            assert!(lightyear_transport::verif::send::residue(&mut r.app.world_mut().get_mut::<Transport>(e).unwrap()) == (0, true), "something remains of messages whose fate is decided");
        }
    }
    /// arbitrary bytes from the link never panic the receiver
    fn e2e_hostile(s) {
        let mut r = Rig::new(s);
        for _ in 0..3 {
            for _ in 0..4 {
                let n = s.below(60);
                let mut v = s.blob(n);
                if s.below(4) > 0 && v.len() > 20 {
                    v[0] = s.range(0, 5) as u8;
                    v[13] = s.range(0, 6) as u8;
                    if s.coin() { v[14] = 0; v[15] = s.range(0, 3) as u8; v[16] = s.range(0, 3) as u8; v[17] = s.range(0, 4) as u8; if s.coin() { v[17] = 0xc0 | s.u8(); } }
                }
                r.net[s.below(2)].push(Bytes::from(v));
            }
            for i in 0..2 {
                let mut link = r.app.world_mut().get_mut::<Link>(r.e[i]).unwrap();
                for p in r.net[i].drain(..) { link.recv.push_raw(recv_payload_from_bytes(p)); }
            }
            r.app.world_mut().resource_mut::<Time<Real>>().advance_by(ms(10));
            r.app.update();
        }
    }
    /// after a disconnection both ends start over: fresh ids, no leftovers of the old session
    fn e2e_reset(s) {
        let mut r = Rig::new(s);
        for _ in 0..s.below(12) {
            for _ in 0..s.below(4) { let (e, c) = (s.below(2), s.below(N)); r.send(s, e, c); }
            for i in 0..2 { r.deliver(s, i, false); }
            r.frame(ms(s.range(1, 40)));
        }
        for i in 0..2 {
            let e = r.e[i];
            r.app.world_mut().entity_mut(e).insert(lightyear_connection::client::Disconnected { reason: lightyear_connection::client::DisconnectedReason::UserRequested(None) });
        }
        r.net = [vec![], vec![]];
        for i in 0..2 { for c in 0..N { r.sent[i][c].clear(); r.got[i][c].clear(); r.acks[i][c].clear(); } }
        // nothing of the old session comes out
        r.frame(ms(1));
        assert!(r.net.iter().all(|n| n.is_empty()), "the old session still sends");
        for i in 0..2 { for c in [1usize, 2, 3, 4, 5] {
            let kind = r.kinds[c];
            let b = Bytes::from(vec![i as u8, c as u8, 0, 0]);
            let id = r.app.world_mut().get_mut::<Transport>(r.e[i]).unwrap().send_mut_erased(kind, b.clone(), 1.0).unwrap();
            assert!(id.map(|m| m.0) == Some(0), "message ids restart");
            r.sent[i][c].push((b, Some(0)));
        } }
        for _ in 0..20 { for i in 0..2 { r.deliver(s, i, true); } r.frame(ms(26)); }
        for i in 0..2 { for c in [1usize, 2, 3, 4, 5] { assert!(r.got[1 - i][c] == vec![0], "the new session does not deliver"); } }
        let _ = BTreeMap::<u8, u8>::new();
    }
}

//! N20 link queues, MTU, conditioner, lifecycle; C25 containers.
use crate::{Src, natives};
use bevy_app::App;
use bevy_ecs::prelude::*;
use bevy_ecs::relationship::RelationshipTarget;
use bytes::{Bytes, BytesMut};
use core::time::Duration;
use lightyear_core::time::Instant;
use lightyear_link::prelude::{LinkConditionerConfig, LinkOf, Server};
use lightyear_link::server::ServerLinkPlugin;
use lightyear_link::{Link, LinkConditioner, LinkMtu, LinkPlugin, LinkState, Linked, Linking, MtuTooSmall, RecvLinkConditioner, Unlink, UnlinkReason, Unlinked, recv_payload_from_bytes};
use lightyear_utils::free_list::FreeList;
use lightyear_utils::ready_buffer::ReadyBuffer;
use lightyear_utils::sequence_buffer::SequenceBuffer;
use std::collections::{BTreeMap, VecDeque};

fn reason<S: Src>(s: &mut S) -> UnlinkReason {
    match s.range(0, 5) {
        0 => UnlinkReason::Initial,
        1 => UnlinkReason::UserRequested(None),
        2 => UnlinkReason::UserRequested(Some("a".into())),
        3 => UnlinkReason::ServerStopped,
        4 => UnlinkReason::ByPeer("b".into()),
        _ => UnlinkReason::TransportError("c".into()),
    }
}
fn config<S: Src>(s: &mut S) -> LinkConditionerConfig {
    let us = |s: &mut S| match s.range(0, 4) { 0 => 0, 1 => s.range(1, 999), 2 => s.range(1, 9) * 1000, 3 => s.range(0, 300) * 1000 + s.range(0, 999), _ => s.range(0, 3) * 1000 };
    LinkConditionerConfig::default().with_incoming_latency(Duration::from_micros(us(s))).with_incoming_jitter(Duration::from_micros(us(s)))
}
fn prob<S: Src>(s: &mut S) -> f32 {
    match s.range(0, 4) { 0 => 0.0, 1 => 1.0, _ => s.range(0, 1000) as f32 / 1000.0 }
}
fn near(a: f32, b: f32) -> bool { (a - b).abs() <= 1e-3 }

natives! {
    fn n20_queues(s) {
        let mut l = Link::default();
        let (mut rx, mut tx): (VecDeque<Vec<u8>>, VecDeque<Vec<u8>>) = Default::default();
        for _ in 0..s.range(0, 40) {
            let n = s.below(5);
            let mut b = s.blob(n);
            if s.below(50) == 0 { b.resize(60_000 + s.below(80_000), 7); }
            match s.range(0, 10) {
                0 | 1 => { l.recv.push_raw(BytesMut::from(&b[..])); rx.push_back(b); }
                2 => { l.recv.push(BytesMut::from(&b[..]), Instant::now()); rx.push_back(b); }
                3 | 4 => { assert!(l.recv.pop().map(|p| p.to_vec()) == rx.pop_front(), "received packets come out in order, once, unchanged"); }
                5 => { let keep = Bytes::from(b.clone()); let k2 = if s.coin() { Some(keep.clone()) } else { None }; l.recv.push_raw(recv_payload_from_bytes(keep)); if let Some(k) = k2 { assert!(k[..] == b[..]); } rx.push_back(b); }
                6 => { if s.coin() { l.send(Bytes::from(b.clone())); } else { l.send.push(Bytes::from(b.clone())); } tx.push_back(b); }
                7 => { l.send.push_front(Bytes::from(b.clone())); tx.push_front(b); }
                8 => { assert!(l.send.pop().map(|p| p.to_vec()) == tx.pop_front(), "sent packets come out in order, once, unchanged"); }
                9 => { let d: Vec<Vec<u8>> = l.recv.drain().map(|p| p.to_vec()).collect(); assert!(d == rx.drain(..).collect::<Vec<_>>()); }
                _ => { let d: Vec<Vec<u8>> = l.send.drain().map(|p| p.to_vec()).collect(); assert!(d == tx.drain(..).collect::<Vec<_>>()); }
            }
            assert!(l.recv.len() == rx.len() && l.send.len() == tx.len());
        }
    }
    fn n20_mtu(s) {
        let min = s.range(0, 70000) as usize;
        let mut l = Link::default();
        assert!(l.mtu() == 1200 && l.min_mtu() == 1200);
        l = l.with_mtu(LinkMtu::new(min));
        let mut cur = min;
        for _ in 0..s.range(0, 5) {
            let m = match s.range(0, 3) { 0 => min.saturating_sub(s.below(3)), 1 => min + s.below(3), _ => s.range(0, 100000) as usize };
            let r = l.set_mtu(m);
            if m < min { assert!(r == Err(MtuTooSmall { mtu: m, min })); } else { assert!(r.is_ok()); cur = m; }
            assert!(l.mtu() == cur && l.min_mtu() == min, "the MTU never drops below its minimum, which is fixed");
        }
    }
    fn n20_conditioner(s) {
        let mut c = config(s);
        let lossy = s.range(0, 5);
        if lossy == 0 { c = c.with_fixed_loss(1.0); } else { c = c.with_fixed_loss(0.0); if lossy == 1 { c.good_to_bad = prob(s); c.bad_to_good = prob(s); } }
        let lat = c.incoming_latency.as_millis() as i64;
        let jit = c.incoming_jitter.as_millis() as i64;
        let mut q: LinkConditioner<Vec<u8>> = LinkConditioner::new(c);
        let t0 = Instant::now();
        let at = |us: u64| t0 + Duration::from_micros(us);
        let mut now = 0u64;
        let mut waiting: BTreeMap<Vec<u8>, u64> = BTreeMap::new();
        let mut n = 0u32;
        let mut last: Option<u64> = None;
        for step in 0..s.range(1, 40) {
            if s.coin() {
                for _ in 0..s.range(1, 4) {
                    let mut p = n.to_le_bytes().to_vec(); n += 1;
                    let k = s.below(3); p.extend(s.blob(k));
                    q.v_condition(p.clone(), at(now));
                    if lossy != 0 { waiting.insert(p, now); }
                }
            } else {
                now += s.range(0, 40) * if s.coin() { 1000 } else { 333 };
                while let Some(p) = q.v_pop(at(now)) {
                    let Some(t) = waiting.remove(&p) else { panic!("a packet came out that was not put in, was lost, or came out twice") };
                    assert!(now as i64 - t as i64 >= (lat - jit).max(0) * 1000, "never earlier than latency minus jitter");
                }
                for t in waiting.values() { assert!((now as i64 - *t as i64) < (lat + jit).max(0) * 1000 + 1 || (jit == 0 && lat == 0 && now == *t && false), "available once latency plus jitter has passed"); }
            }
            let _ = (step, &mut last);
        }
        now += 10_000_000;
        while let Some(p) = q.v_pop(at(now)) { assert!(waiting.remove(&p).is_some()); }
        assert!(waiting.is_empty(), "without loss every packet comes out");
        assert!(q.time_queue.is_empty());
    }
    fn n20_latency_order(s) {
        // without jitter the delay is exact, so packets of different instants stay ordered
        let mut c = LinkConditionerConfig::default().with_incoming_latency(Duration::from_micros(s.range(0, 200_999)));
        if s.coin() { c = c.with_incoming_jitter(Duration::from_micros(s.range(0, 999))); }
        let lat = c.incoming_latency.as_millis() as u64 * 1000;
        let mut q: LinkConditioner<u32> = LinkConditioner::new(c);
        let t0 = Instant::now();
        let mut now = 0;
        let mut sent = vec![];
        for i in 0..s.range(1, 20) as u32 { now += s.range(1, 20_000); q.v_condition(i, t0 + Duration::from_micros(now)); sent.push((now, i)); }
        for (t, i) in sent {
            if t + lat > 0 { assert!(lat == 0 && false || q.v_pop(t0 + Duration::from_micros(t + lat - 1)).is_none(), "not before its time"); }
            assert!(q.v_pop(t0 + Duration::from_micros(t + lat)) == Some(i), "exactly at its time, in order");
        }
    }
    fn n20_loss_model(s) {
        let base = config(s);
        let p = prob(s);
        let f = base.clone().with_fixed_loss(p);
        assert!(near(f.mean_loss(), p) && f.incoming_latency == base.incoming_latency && f.incoming_jitter == base.incoming_jitter, "a fixed loss is the mean loss");
        let min = s.range(0, 400) as f32 / 1000.0;
        let bad = (500 + s.range(0, 500)) as f32 / 1000.0;
        let mean = min + (bad - min) * s.range(0, 90) as f32 / 100.0;
        let len = 1.0 + s.range(0, 300) as f32 / 10.0;
        let g = match s.range(0, 2) {
            0 => base.clone().with_gilbert_elliott_loss(mean, len, bad, min),
            1 => base.clone().with_gilbert_loss(mean.min(bad * 0.9), len, bad),
            _ => base.clone().with_simple_gilbert_loss(mean.min(0.9), len),
        };
        let kept = [mean, mean.min(bad * 0.9), mean.min(0.9)];
        assert!(kept.iter().any(|m| near(g.mean_loss(), *m)), "a burst model has the mean loss it was built for");
        assert!(near(g.bad_to_good, 1.0 / len), "bursts have the mean length they were built for");
        let h = g.clone().half();
        assert!(near(h.mean_loss() * 2.0, g.mean_loss()) && h.bad_to_good == g.bad_to_good && h.good_to_bad == g.good_to_bad, "half the loss, same bursts");
        assert!(h.incoming_latency == g.incoming_latency / 2 && h.incoming_jitter == g.incoming_jitter / 2, "half the latency and jitter");
    }
    fn n20_loss_machine(s) {
        // with every probability 0 or 1 the loss model is deterministic: a packet's fate follows the state it
        // finds, and the state moves with that packet
        let bit = |s: &mut S| if s.coin() { 1.0f32 } else { 0.0 };
        let mut c = LinkConditionerConfig::default();
        let (g, b, gb, bg) = (bit(s), bit(s), bit(s), bit(s));
        c.good_loss = g; c.bad_loss = b; c.good_to_bad = gb; c.bad_to_good = bg;
        let mut q: LinkConditioner<u32> = LinkConditioner::new(c);
        let t0 = Instant::now();
        let (mut bad, mut want) = (false, vec![]);
        for i in 0..s.range(1, 12) as u32 {
            if (if bad { b } else { g }) < 0.5 { want.push(i); }
            if (if bad { bg } else { gb }) > 0.5 { bad = !bad; }
            q.v_condition(i, t0 + Duration::from_micros(i as u64));
        }
        let mut got = vec![];
        while let Some(p) = q.v_pop(t0 + Duration::from_secs(1)) { got.push(p); }
        assert!(got == want, "the loss of a packet is that of the state it finds");
    }
    fn n20_lifecycle(s) {
        #[derive(Resource, Default)]
        struct Log(Vec<(Entity, UnlinkReason)>);
        let mut app = App::new();
        app.add_plugins(ServerLinkPlugin);
        app.init_resource::<Log>();
        // recorded before the reason is taken by the plugin's own observer
        app.add_observer(|t: On<Add, Unlinked>, q: Query<&Unlinked>, mut l: ResMut<Log>| { if let Ok(u) = q.get(t.entity) { l.0.push((t.entity, u.reason.clone())); } });
        #[derive(Clone, PartialEq, Debug)]
        enum St { None, Linking, Linked, Unlinked(UnlinkReason) }
        struct M { e: Entity, st: St, server: bool, link: bool, of: Option<Entity>, cond: bool, raw: Vec<u32>, delayed: Vec<u32> }
        let mut ms: Vec<M> = vec![];
        let mut servers: BTreeMap<Entity, bool> = BTreeMap::new();
        let mut next = 0u32;
        let hour = || RecvLinkConditioner::new(LinkConditionerConfig::default().with_incoming_latency(Duration::from_secs(3600)));
        for _ in 0..s.range(1, 30) {
            let w = app.world_mut();
            if ms.is_empty() || (ms.len() < 7 && s.range(0, 2) == 0) {
                let server = s.range(0, 2) == 0;
                let mut em = w.spawn_empty();
                let mut st = St::None;
                if s.coin() { em.insert(Linked); st = St::Linked; }
                let link = s.range(0, 3) > 0;
                if link { em.insert(Link::default()); if st == St::Linked { em.insert(Linked); } }
                if server { let c = s.coin(); em.insert(Server::new(if c { Some(hour()) } else { None })); servers.insert(em.id(), c); if st == St::None { st = St::Unlinked(UnlinkReason::Initial); } }
                let e = em.id();
                ms.push(M { e, st, server, link, of: None, cond: false, raw: vec![], delayed: vec![] });
                w.flush();
            } else {
                let i = s.below(ms.len());
                let e = ms[i].e;
                let r = reason(s);
                match s.range(0, 9) {
                    0 | 1 => { w.entity_mut(e).insert(Linking); if ms[i].st != St::Linked { ms[i].st = St::Linking; } }
                    2 | 3 => { w.entity_mut(e).insert(Linked); ms[i].st = St::Linked; }
                    4 | 5 => {
                        let was = matches!(ms[i].st, St::Unlinked(_));
                        if s.coin() { w.entity_mut(e).insert(Unlinked { reason: r.clone() }); } else { w.trigger(Unlink { entity: e, reason: r.clone() }); }
                        w.flush();
                        ms[i].st = St::Unlinked(r.clone());
                        if ms[i].server && !was {
                            // the children are unlinked with the same reason and despawned
                            let log = &w.resource::<Log>().0;
                            for m in ms.iter().filter(|m| m.of == Some(e)) {
                                let already = matches!(m.st, St::Unlinked(_));
                                assert!(already || log.iter().filter(|x| x.0 == m.e).last().map(|x| &x.1) == Some(&r), "a server's links are unlinked for the server's reason");
                                assert!(w.get_entity(m.e).is_err(), "and despawned");
                            }
                            ms.retain(|m| m.of != Some(e));
                        }
                    }
                    6 | 7 => {
                        if !ms[i].server && !servers.is_empty() {
                            let k = s.below(servers.len());
                            let (t, c) = servers.iter().nth(k).map(|(a, b)| (*a, *b)).unwrap();
                            let fresh = ms[i].of.is_none();
                            w.entity_mut(e).insert(LinkOf { server: t });
                            ms[i].of = Some(t);
                            if fresh && c && ms[i].link && !ms[i].cond { ms[i].cond = true; let r = core::mem::take(&mut ms[i].raw); ms[i].delayed.extend(r); }
                        }
                    }
                    8 => { w.entity_mut(e).remove::<LinkOf>(); ms[i].of = None; }
                    _ => {
                        if let Some(mut l) = w.get_mut::<Link>(e) {
                            let raw = s.coin();
                            next += 1;
                            let b = BytesMut::from(&next.to_le_bytes()[..]);
                            if raw { l.recv.push_raw(b); } else { l.recv.push(b, Instant::now()); }
                            if raw || !ms[i].cond { ms[i].raw.push(next); } else { ms[i].delayed.push(next); }
                        }
                        if s.coin() { app.update(); }
                    }
                }
                app.world_mut().flush();
            }
            let w = app.world_mut();
            for m in ms.iter() {
                let r = w.entity(m.e);
                let got = match (r.contains::<Linking>(), r.contains::<Linked>(), r.get::<Unlinked>()) {
                    (false, false, None) => St::None,
                    (true, false, None) => St::Linking,
                    (false, true, None) => St::Linked,
                    (false, false, Some(u)) => St::Unlinked(u.reason.clone()),
                    _ => panic!("link markers are exclusive"),
                };
                assert!(got == m.st || (got == St::Linked && r.contains::<Linked>() && m.st == St::Linked), "the latest marker wins, but linking never undoes linked");
                if let Some(l) = r.get::<Link>() {
                    assert!(l.state == match m.st { St::None | St::Unlinked(_) => LinkState::Unlinked, St::Linking => LinkState::Linking, St::Linked => LinkState::Linked }, "Link::state mirrors the marker");
                    assert!(l.recv.conditioner.is_some() == m.cond, "links inherit the conditioner of their server");
                    assert!(l.recv.len() == m.raw.len(), "packets queued before the conditioner arrived are conditioned too");
                }
                assert!(r.get::<LinkOf>().map(|l| l.server) == m.of);
                if m.server {
                    let mut a: Vec<Entity> = r.get::<Server>().unwrap().collection().to_vec();
                    let mut b: Vec<Entity> = ms.iter().filter(|x| x.of == Some(m.e)).map(|x| x.e).collect();
                    a.sort(); b.sort();
                    assert!(a == b, "a server lists exactly the links that name it");
                }
            }
        }
        let later = Instant::now() + Duration::from_secs(7200);
        for m in ms.iter() {
            let Some(mut l) = app.world_mut().get_mut::<Link>(m.e) else { continue };
            let raw: Vec<u32> = l.recv.drain().map(|p| u32::from_le_bytes(p[..].try_into().unwrap())).collect();
            assert!(raw == m.raw, "undelayed packets in order");
            let (mut keys, mut got) = (vec![], vec![]);
            if let Some(c) = &mut l.recv.conditioner {
                while let Some((k, p)) = c.time_queue.pop_item(&later) { keys.push(k); got.push(u32::from_le_bytes(p[..].try_into().unwrap())); }
            }
            if keys.windows(2).any(|w| w[0] == w[1]) { got.sort(); }
            let mut want = m.delayed.clone();
            if keys.windows(2).any(|w| w[0] == w[1]) { want.sort(); }
            assert!(got == want, "every packet of a conditioned link is conditioned, also those that arrived before the conditioner");
        }
    }
    fn n20_apply(s) {
        // the plugin moves exactly the packets whose time has come, in the order of their times
        let mut app = App::new();
        app.add_plugins(LinkPlugin);
        let mut es = vec![];
        let start = Instant::now();
        for _ in 0..s.range(1, 4) {
            let late = s.below(3) == 0;
            let c = LinkConditionerConfig::default().with_incoming_latency(if late { Duration::from_secs(3600) } else { Duration::from_millis(s.range(0, 3)) });
            let with = s.range(0, 3) > 0;
            let mut l = Link::default().with_conditioner(if with { Some(RecvLinkConditioner::new(c)) } else { None });
            let n = s.below(6);
            // arrival times: distinct, some of them so far ahead that their time does not come
            let mut due: Vec<(u64, u8)> = vec![];
            for k in 0..n {
                let off = s.range(0, 900) * 8 + k as u64;
                let ahead = s.below(4) == 0;
                let at = if ahead { start + Duration::from_secs(1000 + off) } else { start - Duration::from_millis(10_000 - off) };
                l.recv.push(BytesMut::from(&[k as u8][..]), at);
                if !with { due.push((k as u64, k as u8)); } else if !late && !ahead { due.push((off, k as u8)); }
            }
            due.sort();
            assert!(l.recv.len() == if with { 0 } else { n }, "conditioned packets are not visible before their time");
            let e = app.world_mut().spawn(l).id();
            es.push((e, due));
        }
        app.update();
        for (e, due) in es {
            let mut l = app.world_mut().get_mut::<Link>(e).unwrap();
            let got: Vec<u8> = l.recv.drain().map(|b| b[0]).collect();
            assert!(got == due.iter().map(|d| d.1).collect::<Vec<_>>(), "every packet that is due is delivered once, in order of its time");
        }
    }
    fn c25_ready(s) {
        let mut b: ReadyBuffer<i32, u32> = ReadyBuffer::new();
        let mut m: Vec<(i32, u32)> = vec![];
        let mut id = 0;
        let span = if s.coin() { 4 } else { 30 };
        for _ in 0..s.range(0, 60) {
            let k = s.range(0, span) as i32 - 2;
            let min = m.iter().map(|x| x.0).min();
            let ready = min.is_some_and(|x| x <= k);
            assert!(b.has_item(&k) == ready && b.len() == m.len() && b.is_empty() == m.is_empty());
            let mut take = |m: &mut Vec<(i32, u32)>, x: &(i32, u32)| { let i = m.iter().position(|y| y == x); assert!(i.is_some(), "an item comes out once, with its own key"); m.remove(i.unwrap()); };
            match s.range(0, 9) {
                0 | 1 | 2 | 3 => { b.push(k, id); m.push((k, id)); id += 1; }
                4 => { let r = b.peek_item(&k).map(|(k, v)| (k, *v)); assert!(r.is_some() == ready); if let Some(r) = r { assert!(Some(r.0) == min && m.contains(&r)); } }
                5 => { let r = b.pop_item(&k); assert!(r.is_some() == ready, "an item is ready once its key is reached"); if let Some(r) = r { assert!(Some(r.0) == min, "lowest key first"); take(&mut m, &r); } }
                6 => {
                    let top = m.iter().filter(|x| x.0 <= k).map(|x| x.0).max();
                    let r = b.pop_until(&k);
                    assert!(r.map(|x| x.0) == top, "the latest item not after the key");
                    if let Some(r) = r { assert!(m.contains(&r)); }
                    m.retain(|x| x.0 > k);
                }
                7 => {
                    let r = b.drain_until(&k);
                    assert!(r.windows(2).all(|w| w[0].0 <= w[1].0), "in key order");
                    for x in &r { assert!(x.0 <= k); take(&mut m, x); }
                    assert!(m.iter().all(|x| x.0 > k), "everything not after the key");
                }
                8 => {
                    let r = b.drain_after(&k);
                    for x in &r { assert!(x.0 >= k); take(&mut m, x); }
                    assert!(m.iter().all(|x| x.0 < k), "everything from the key on");
                }
                _ => { if s.range(0, 5) == 0 { if s.coin() { b.clear(); m.clear(); } else { let mut v: Vec<_> = b.drain().collect(); v.sort(); m.sort(); assert!(v == m); m.clear(); } } else { assert!(b.peek_max_item().map(|x| x.0) == min, "the first item has the lowest key"); } }
            }
        }
    }
    fn c25_sequence(s) {
        #[derive(Clone, Copy)]
        struct Id(u16);
        impl lightyear_utils::wrapping_id::WrappedId for Id { fn rem(&self, total: usize) -> usize { self.0 as usize % total } }
        fn go<S: Src, const N: usize>(s: &mut S) {
            let mut b: SequenceBuffer<Id, u32, N> = SequenceBuffer::new();
            let mut m: BTreeMap<usize, u32> = BTreeMap::new();
            let mut v = 0;
            for _ in 0..s.range(0, 60) {
                let k = Id(if s.coin() { s.u16() } else { s.range(0, 40) as u16 });
                let i = k.0 as usize % N;
                match s.range(0, 9) {
                    0..=4 => { v += 1; b.push(&k, v); m.insert(i, v); }
                    5 | 6 => { assert!(b.remove(&k) == m.remove(&i)); }
                    7 if s.range(0, 3) == 0 => { b.clear(); m.clear(); }
                    _ => {}
                }
                for j in 0..N.min(40) { assert!(b.get(&Id(j as u16)) == m.get(&j), "a slot holds the last value pushed on it"); }
                assert!(b.get(&k) == m.get(&i));
            }
        }
        match s.range(0, 2) { 0 => go::<S, 1>(s), 1 => go::<S, 7>(s), _ => go::<S, 32>(s) }
    }
    fn c25_free_list(s) {
        fn go<S: Src, const N: usize>(s: &mut S) {
            let mut b: FreeList<u32, N> = FreeList::new();
            let mut m: [Option<u32>; N] = [None; N];
            let mut v = 0;
            for _ in 0..s.range(0, 60) {
                let n = m.iter().flatten().count();
                if s.range(0, 2) > 0 {
                    if n < N {
                        v += 1;
                        let i = b.insert(v);
                        assert!(m.iter().position(|x| x.is_none()) == Some(i), "the first free slot is used; an occupied slot never");
                        m[i] = Some(v);
                    }
                } else {
                    let i = s.below(N);
                    match s.range(0, 2) {
                        0 | 1 => { b.remove(i); m[i] = None; }
                        _ => { if let Some(x) = b.get_mut(i) { v += 1; *x = v; m[i] = Some(v); } else { assert!(m[i].is_none()); } }
                    }
                }
                assert!(b.len() == m.iter().flatten().count(), "len counts the occupied slots");
                for i in 0..N + 2 { assert!(b.get(i) == m.get(i).and_then(|x| x.as_ref())); if b.get(i).is_some() { assert!(Some(b[i]) == m[i]); } }
                assert!(b.iter().collect::<Vec<_>>() == m.iter().enumerate().filter_map(|(i, x)| x.map(|x| (i, x))).collect::<Vec<_>>(), "iteration lists the occupied slots");
            }
        }
        match s.range(0, 2) { 0 => go::<S, 1>(s), 1 => go::<S, 5>(s), _ => go::<S, 16>(s) }
    }
}

//! C23 targets, C26 topology, peer map and connection lifecycle.
use crate::{Src, natives};
use bevy_app::App;
use bevy_ecs::change_detection::DetectChanges;
use bevy_ecs::entity::EntityHashSet;
use bevy_ecs::prelude::*;
use bevy_platform::collections::HashMap;
use lightyear_connection::client::{Client, Connect, Connected, Connecting, Disconnect, Disconnected, DisconnectedReason, Disconnecting};
use lightyear_connection::client_of::ClientOf;
use lightyear_connection::host::{HostClient, HostPlugin, HostServer};
use lightyear_connection::network_target::{NetworkTarget, NetworkTargetResolver, Target, TargetList};
use lightyear_connection::network_topology::{NetworkTopology, NetworkTopologyError, NetworkingMetadata};
use lightyear_connection::p2p::P2P;
use lightyear_connection::server::{Start, Started, Starting, Stopped, Stopping};
use lightyear_core::id::{PeerId, RemoteId};
use lightyear_link::prelude::{LinkOf, Server};
use lightyear_link::{LinkStart, Linked, UnlinkReason, Unlinked};
use lightyear_serde::ToBytes;
use lightyear_serde::reader::Reader;
use lightyear_serde::writer::Writer;
use std::collections::{BTreeMap, BTreeSet};

fn list<S: Src, T: Copy>(s: &mut S, ids: &[T]) -> TargetList<T> {
    let n = if s.range(0, 3) == 0 { s.range(0, 14) } else { s.range(0, 5) };
    (0..n).map(|_| ids[s.below(ids.len())]).collect()
}
fn target<S: Src, T: Copy>(s: &mut S, ids: &[T]) -> Target<T> {
    match s.range(0, 7) {
        0 => Target::None,
        1 => Target::All,
        2 => Target::Single(ids[s.below(ids.len())]),
        3 => Target::AllExceptSingle(ids[s.below(ids.len())]),
        4 | 5 => Target::Only(list(s, ids)),
        _ => Target::AllExcept(list(s, ids)),
    }
}
/// the set a target denotes, written from the documentation of its variants
fn member<T: Eq>(t: &Target<T>, x: &T) -> bool {
    match t {
        Target::None => false,
        Target::All => true,
        Target::Single(i) => i == x,
        Target::AllExceptSingle(i) => i != x,
        Target::Only(l) => l.iter().any(|i| i == x),
        Target::AllExcept(l) => !l.iter().any(|i| i == x),
    }
}
fn peers() -> Vec<PeerId> {
    let mut v: Vec<PeerId> = (0..6).map(PeerId::Netcode).collect();
    v.extend([PeerId::Steam(1), PeerId::Local(1), PeerId::Server, PeerId::Entity(2)]);
    v.extend((6..12).map(PeerId::Netcode));
    v
}
const OUTSIDE: PeerId = PeerId::Netcode(999);

fn algebra<S: Src, T: Copy + Eq + core::hash::Hash + core::fmt::Debug>(s: &mut S, dom: &[T], outside: T) {
    let k = s.range(2, dom.len() as u64) as usize;
    let ids = &dom[..k];
    let mut t = target(s, ids);
    let all: Vec<T> = dom.iter().copied().chain([outside]).collect();
    for _ in 0..s.range(1, 6) {
        let before = t.clone();
        let o = target(s, ids);
        let op = s.range(0, 8);
        let more = list(s, ids);
        match op {
            0 => t.v_intersection(&o),
            1 => t.v_union(&o),
            2 => t.v_exclude(&o),
            3 => t.v_inverse(),
            4 => t.extend(more.iter().copied()),
            5 => t = Target::from_exclude(more.iter().copied()),
            6 => t = more.iter().copied().collect(),
            7 => t = Target::from(more.to_vec()),
            _ => t = Target::from(more.clone()),
        }
        for x in &all {
            let (a, b, m) = (member(&before, x), member(&o, x), more.contains(x));
            let want = match op {
                0 => a && b,
                1 => a || b,
                2 => a && !b,
                3 => !a,
                4 => a || m,
                5 => !m,
                _ => m,
            };
            assert!(member(&t, x) == want, "the operation computes the set it is named after");
            assert!(t.targets(x) == want, "targets() is membership");
        }
        assert!(t.is_empty() == !(all.iter().any(|x| member(&t, x)) || matches!(t, Target::AllExcept(_) | Target::AllExceptSingle(_) | Target::All)), "empty iff it denotes nobody");
    }
}

natives! {
    fn c23_algebra(s) {
        let d = peers();
        algebra(s, &d, OUTSIDE);
    }
    fn c23_entities(s) {
        let d: Vec<Entity> = (1..14).map(|i| Entity::from_raw_u32(i).unwrap()).collect();
        algebra(s, &d, Entity::from_raw_u32(77).unwrap());
    }
    fn c23_resolve(s) {
        let dom = peers();
        let mut resolver = NetworkTargetResolver::default();
        for _ in 0..s.range(1, 4) {
            // entities: 0..14 mapped from the peers (injective, some peers unmapped), clients: a subset, in random order
            let mut mapping: HashMap<PeerId, Entity> = HashMap::default();
            let mut clients: Vec<Entity> = vec![];
            let dense = s.coin();
            let mut rev: BTreeMap<Entity, PeerId> = BTreeMap::new();
            for (i, p) in dom.iter().enumerate() {
                let e = Entity::from_raw_u32(10 + i as u32).unwrap();
                if s.range(0, 4) > 0 { mapping.insert(*p, e); rev.insert(e, *p); }
                if if dense { s.range(0, 4) > 0 } else { s.range(0, 4) == 0 } { let k = s.below(clients.len() + 1); clients.insert(k, e); }
            }
            let t = target(s, &dom);
            // a connected entity is reached iff its peer is in the target; connected entities without a mapped peer only through the complements
            let want: BTreeSet<Entity> = clients.iter().copied().filter(|e| match rev.get(e) {
                Some(p) => member(&t, p),
                None => matches!(t, Target::All | Target::AllExcept(_) | Target::AllExceptSingle(_)),
            }).collect();
            let got: &EntityHashSet = resolver.resolve(&t, &clients, &mapping);
            assert!(got.iter().copied().collect::<BTreeSet<_>>() == want && got.len() == want.len(), "resolve reaches exactly the connected members");
            let mut called = vec![];
            t.apply_targets(clients.iter().copied(), &mapping, &mut |e| called.push(e));
            assert!(called == clients.iter().copied().filter(|e| want.contains(e)).collect::<Vec<_>>(), "apply_targets visits exactly the connected members, once each, in order");
        }
    }
    fn c23_codec(s) {
        let mut t = target(s, &peers());
        if s.range(0, 5) == 0 {
            let l: TargetList<PeerId> = (0..s.range(60, 300)).map(PeerId::Netcode).collect();
            t = if s.coin() { Target::Only(l) } else { Target::AllExcept(l) };
        }
        let mut w = Writer::default();
        t.to_bytes(&mut w).unwrap();
        let b = w.into_bytes();
        assert!(b.len() == t.bytes_len(), "declared length");
        let mut padded = b.to_vec();
        let tail = s.below(4);
        padded.extend(s.blob(tail));
        let mut r = Reader::from(bytes::Bytes::from(padded));
        let d: NetworkTarget = Target::from_bytes(&mut r).unwrap();
        assert!(d == t, "decoding restores the target");
        assert!(r.position() == b.len() as u64, "exactly the written bytes are consumed");
        let cut = s.below(b.len());
        assert!(NetworkTarget::from_bytes(&mut Reader::from(b.slice(..cut))).is_err(), "truncated input is an error");
        let mut bad = b.to_vec();
        bad[0] = s.range(6, 255) as u8;
        assert!(NetworkTarget::from_bytes(&mut Reader::from(bytes::Bytes::from(bad))).is_err(), "unknown variants are an error");
    }
    fn c26_topology(s) {
        let mut app = App::new();
        app.add_plugins(lightyear_connection::ConnectionPlugin);
        let mut es: Vec<Entity> = vec![];
        let rounds = s.range(1, 8);
        // biased worlds: mostly client/server, mostly p2p, or anything
        let flavour = s.range(0, 3);
        for _ in 0..rounds {
            for _ in 0..s.range(0, 5) {
                let w = app.world_mut();
                if es.is_empty() || s.range(0, 5) == 0 { let e = w.spawn(RemoteId(PeerId::Local(es.len() as u64))).id(); es.push(e); }
                let e = es[s.below(es.len())];
                let Ok(mut em) = w.get_entity_mut(e) else { continue };
                let dis = em.contains::<Disconnecting>();
                match s.range(0, 23) {
                    0 | 1 => { if flavour != 1 { em.insert(Client); } }
                    2 => { em.remove::<Client>(); }
                    3 | 4 | 5 if flavour != 0 => { em.insert(match s.range(0, 4) { 0 => P2P::Inactive, 1 => P2P::Candidate, _ => P2P::Joined }); }
                    6 => { em.remove::<P2P>(); }
                    7 | 8 | 9 | 10 if !dis => { if em.contains::<RemoteId>() { em.insert(Connected); } }
                    11 => { em.insert(Disconnected::default()); }
                    12 => { em.remove::<Connected>(); }
                    13 | 14 if flavour != 1 => { em.insert((Server::default(), Started)); }
                    15 => { em.insert(Stopped); }
                    16 => { em.remove::<Started>(); }
                    17 if flavour != 1 => { em.insert(HostClient { buffer: vec![] }); }
                    18 => { em.remove::<HostClient>(); }
                    19 | 20 => { let t = es[s.below(es.len())]; if t != e && w.get_entity(t).is_ok() { w.entity_mut(e).insert(LinkOf { server: t }); } }
                    21 => { w.entity_mut(e).remove::<LinkOf>(); }
                    22 => { w.despawn(e); }
                    _ => {}
                }
                w.flush();
            }
            let before = app.world().resource::<NetworkingMetadata>().mode.clone();
            let ticks = app.world().get_resource_ref::<NetworkingMetadata>().unwrap().last_changed();
            app.update();
            let w = app.world_mut();
            let want = expected(w);
            let meta = w.get_resource_ref::<NetworkingMetadata>().unwrap();
            assert!(meta.mode == want, "the mode is what the current roles and lifecycle imply");
            if meta.mode == before { assert!(meta.last_changed() == ticks, "no change notification without a change of mode"); }
            else { assert!(meta.last_changed() != ticks, "a change of mode is notified"); }
            let m = &meta.mode;
            assert!(m.is_client() == matches!(m, NetworkTopology::Client(_)) && m.is_p2p() == matches!(m, NetworkTopology::P2P(_))
                && m.is_host_server() == matches!(m, NetworkTopology::HostClient { .. }) && m.is_headless_server() == matches!(m, NetworkTopology::Server(_))
                && m.is_server() == (m.is_host_server() || m.is_headless_server()), "role predicates");
        }
    }
    fn c26_lifecycle(s) {
        #[derive(Resource, Default)]
        struct Starts(Vec<Entity>);
        let mut app = App::new();
        app.add_plugins((lightyear_connection::ConnectionPlugin, lightyear_connection::client::ConnectionPlugin, lightyear_connection::server::ConnectionPlugin));
        app.init_resource::<Starts>();
        app.add_observer(|t: On<LinkStart>, mut st: ResMut<Starts>| st.0.push(t.entity));
        #[derive(Clone, PartialEq, Debug, Default)]
        struct M { e: Option<Entity>, server: bool, of: bool, peer: Option<PeerId>, st: [bool; 3], disc: Option<DisconnectedReason>, sv: [bool; 4], unlinked: bool, linked: bool, dead: bool }
        let mut ms: Vec<M> = vec![];
        let mut map: HashMap<PeerId, Entity> = HashMap::default();
        let mut starts: Vec<Entity> = vec![];
        for _ in 0..s.range(1, 30) {
            let live: Vec<usize> = (0..ms.len()).filter(|i| !ms[*i].dead).collect();
            let w = app.world_mut();
            if live.is_empty() || (ms.len() < 6 && s.range(0, 3) == 0) {
                let server = s.range(0, 3) == 0;
                let of = !server && s.coin();
                let peer = if server { None } else { Some(PeerId::Netcode(s.range(1, 3))) };
                let mut em = w.spawn_empty();
                if server { em.insert((Server::default(), Linked)); } else { em.insert((RemoteId(peer.unwrap()), Linked)); if of { em.insert(ClientOf); } else { em.insert(Client); } }
                let e = em.id();
                ms.push(M { e: Some(e), server, of, peer, linked: true, ..Default::default() });
                w.flush();
                continue;
            }
            let i = live[s.below(live.len())];
            let e = ms[i].e.unwrap();
            let m = &mut ms[i];
            let reason = match s.range(0, 3) { 0 => UnlinkReason::ServerStopped, 1 => UnlinkReason::ByPeer("x".into()), _ => UnlinkReason::UserRequested(None) };
            fn disconnect(m: &mut M, map: &mut HashMap<PeerId, Entity>, r: DisconnectedReason) {
                if m.disc.is_none() {
                    m.st = [false; 3];
                    if let Some(p) = m.peer { if map.get(&p) == m.e.as_ref() { map.remove(&p); } }
                }
                m.disc = Some(r);
            }
            fn stop(m: &mut M, map: &mut HashMap<PeerId, Entity>) {
                if !m.sv[3] { m.sv = [false, false, false, true]; if map.get(&PeerId::Server) == m.e.as_ref() { map.remove(&PeerId::Server); } }
            }
            match s.range(0, 12) {
                0 => { if !m.server { w.entity_mut(e).insert(Connecting); if !m.st[1] { m.st = [false, true, false]; m.disc = None; } } }
                1 | 2 | 3 => { if !m.server && !m.st[2] { w.entity_mut(e).insert(Connected); if !m.st[0] { m.st = [true, false, false]; m.disc = None; map.insert(m.peer.unwrap(), e); } } }
                4 => { if !m.server { w.entity_mut(e).insert(Disconnecting); if !m.st[2] { m.st = [false, false, true]; m.disc = None; } } }
                5 => { if !m.server {
                    let r = if s.coin() { DisconnectedReason::ByPeer(None) } else { DisconnectedReason::TransportError("t".into()) };
                    w.entity_mut(e).insert(Disconnected { reason: r.clone() });
                    disconnect(m, &mut map, r);
                } }
                6 | 7 => {
                    w.entity_mut(e).insert(Unlinked { reason: reason.clone() });
                    if !m.unlinked {
                        if !m.server && m.disc.is_none() { disconnect(m, &mut map, DisconnectedReason::LinkFailed(reason)); }
                        if m.server && m.sv[1] { stop(m, &mut map); }
                    }
                    m.unlinked = true; m.linked = false;
                }
                8 => { w.entity_mut(e).insert(Linked); m.unlinked = false; m.linked = true; }
                9 => {
                    if m.server { w.trigger(Start { entity: e }); } else { w.trigger(Connect { entity: e }); }
                    starts.push(e);
                }
                10 | 11 => { if m.server {
                    let k = s.below(4);
                    match k {
                        0 => { w.entity_mut(e).insert(Starting); if !m.sv[0] { m.sv = [true, false, false, false]; } }
                        1 => { w.entity_mut(e).insert(Started); if !m.sv[1] { m.sv = [false, true, false, false]; map.insert(PeerId::Server, e); } }
                        2 => { w.entity_mut(e).insert(Stopping); if !m.sv[2] { m.sv = [false, false, true, false]; } }
                        _ => { w.entity_mut(e).insert(Stopped); stop(m, &mut map); }
                    }
                } }
                _ => {
                    if m.server && s.coin() && m.sv.iter().any(|b| *b) {
                        w.despawn(e);
                        m.dead = true;
                        if map.get(&PeerId::Server) == Some(&e) { map.remove(&PeerId::Server); }
                    } else {
                        app.update();
                        for m in ms.iter_mut() { if !m.dead && m.of && m.st[2] { disconnect(m, &mut map, DisconnectedReason::UserRequested(None)); m.dead = true; } }
                    }
                }
            }
            let w = app.world_mut();
            w.flush();
            for m in ms.iter() {
                let e = m.e.unwrap();
                let Ok(r) = w.get_entity(e) else { assert!(m.dead, "only a disconnecting ClientOf or a despawned server disappears"); continue };
                assert!(!m.dead, "a disconnecting ClientOf is despawned at the end of the frame");
                assert!([r.contains::<Connected>(), r.contains::<Connecting>(), r.contains::<Disconnecting>()] == m.st, "at most one connection state; the latest wins");
                assert!(r.get::<Disconnected>().map(|d| d.reason.clone()) == m.disc, "disconnected with the reason of the cause");
                assert!([r.contains::<Starting>(), r.contains::<Started>(), r.contains::<Stopping>(), r.contains::<Stopped>()] == m.sv, "server states are exclusive; the latest wins");
                assert!(r.contains::<Unlinked>() == m.unlinked && r.contains::<Linked>() == m.linked);
            }
            assert!(w.resource::<NetworkingMetadata>().peer_map.iter().map(|(a, b)| (*a, *b)).collect::<HashMap<_, _>>() == map, "the peer map lists exactly the connected peers and the started server");
            assert!(w.resource::<Starts>().0 == starts, "connecting or starting starts the link, once");
        }
    }
    fn c26_host(s) {
        let mut app = App::new();
        app.add_plugins((lightyear_connection::ConnectionPlugin, lightyear_connection::client::ConnectionPlugin, lightyear_connection::server::ConnectionPlugin, HostPlugin));
        let w = app.world_mut();
        let server = w.spawn(Server::default()).id();
        let client = w.spawn((Client, LinkOf { server })).id();
        let other = w.spawn((LinkOf { server }, RemoteId(PeerId::Netcode(5)))).id();
        w.flush();
        let (mut started, mut want_conn, mut host) = (false, false, false);
        for _ in 0..s.range(1, 12) {
            let w = app.world_mut();
            match s.range(0, 5) {
                0 | 1 => { w.trigger(Connect { entity: client }); if !host { if started { host = true; want_conn = false; } else { want_conn = true; } } }
                2 | 3 => { if !host && !started { w.entity_mut(server).insert(Started); started = true; if want_conn { host = true; want_conn = false; } } }
                4 => { w.trigger(Disconnect { entity: client }); if host || want_conn { host = false; want_conn = false; } }
                _ => { if !host && !want_conn { w.entity_mut(server).insert(Stopped); started = false; } }
            }
            w.flush();
            let c = w.entity(client);
            assert!(c.contains::<Connecting>() == want_conn, "a host client waits for its server");
            assert!(c.contains::<Connected>() == host && c.contains::<HostClient>() == host, "connected as a host client as soon as the server runs");
            assert!(w.entity(server).contains::<HostServer>() == host, "the server knows it hosts a client");
            assert!(!w.entity(other).contains::<HostClient>());
            app.update();
            let m = &app.world().resource::<NetworkingMetadata>().mode;
            assert!(*m == if host { NetworkTopology::HostClient { server, client } } else if started { NetworkTopology::Server(server) } else { NetworkTopology::Undefined });
        }
    }
}

/// reference classification of the current world
fn expected(w: &mut World) -> NetworkTopology {
    use NetworkTopology as T;
    use NetworkTopologyError as E;
    let mut q = w.query::<(Entity, Has<Client>, Has<Connected>, Option<&P2P>, Has<HostClient>, Option<&LinkOf>, Has<Server>, Has<Started>)>();
    let mut rows: Vec<_> = q.iter(w).map(|(e, c, k, p, h, l, s, st)| (e, c, k, p.copied(), h, l.map(|l| l.server), s, st)).collect();
    rows.sort_by_key(|r| r.0.index_u32());
    if let Some(r) = rows.iter().find(|r| r.4 && r.2 && !r.1) { return T::Invalid(E::HostClientWithoutClient { client: r.0 }); }
    let servers: Vec<Entity> = rows.iter().filter(|r| r.6 && r.7).map(|r| r.0).collect();
    if let Some(p) = rows.iter().find(|r| matches!(r.3, Some(P2P::Candidate | P2P::Joined))) {
        let conv = rows.iter().find(|r| r.1 && r.2 && (r.3.is_none() || r.4)).map(|r| r.0);
        if conv.is_some() || !servers.is_empty() {
            return T::Invalid(E::MixedP2PAndConventional { p2p: p.0, conventional_client: conv, server: servers.first().copied() });
        }
        let joined: Vec<Entity> = rows.iter().filter(|r| r.3 == Some(P2P::Joined) && r.2).map(|r| r.0).collect();
        return if joined.is_empty() || rows.iter().any(|r| r.3 == Some(P2P::Candidate)) { T::Undefined } else { T::P2P(joined.into_iter().collect()) };
    }
    let clients: Vec<_> = rows.iter().filter(|r| r.1 && r.2 && r.3.is_none()).collect();
    if clients.len() > 1 { return T::Invalid(E::MultipleConnectedClients(clients.iter().map(|r| r.0).collect())); }
    if servers.len() > 1 { return T::Invalid(E::MultipleStartedServers(servers.into_iter().collect())); }
    match (clients.first(), servers.first()) {
        (None, None) => T::Undefined,
        (None, Some(s)) => T::Server(*s),
        (Some(c), s) if c.4 => match c.5 {
            None => T::Invalid(E::HostClientMissingLinkOf { client: c.0 }),
            Some(l) if Some(&l) == s => T::HostClient { server: l, client: c.0 },
            Some(l) => T::Invalid(E::HostClientServerNotStarted { client: c.0, server: l }),
        },
        (Some(c), None) => T::Client(c.0),
        (Some(c), Some(s)) => T::Invalid(E::MixedClientServer { client: c.0, server: *s }),
    }
}

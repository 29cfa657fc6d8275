//! C24 entity maps between two worlds.
use crate::{Src, natives};
use bevy_ecs::entity::{Entity, EntityGeneration, EntityIndex, EntityMapper};
use lightyear_serde::ToBytes;
use lightyear_serde::entity_map::{EntityMap, ReceiveEntityMap, RemoteEntityMap, SendEntityMap};
use lightyear_serde::reader::Reader;
use lightyear_serde::writer::Writer;
use std::collections::BTreeMap;

const MARK: u64 = 1 << 63;
fn ent<S: Src>(s: &mut S, small: bool) -> Entity {
    let i = if small { s.range(0, 5) as u32 } else { match s.range(0, 3) { 0 => s.range(0, 70) as u32, 1 => u32::MAX - 1 - s.range(0, 3) as u32, _ => s.u32().min(u32::MAX - 1) } };
    let g = if small { s.range(0, 1) as u32 } else { match s.range(0, 3) { 0 => 0, 1 => s.range(0, 70) as u32, 2 => 0x7fff_ffff, _ => s.u32() & 0x7fff_ffff } };
    Entity::from_index_and_generation(EntityIndex::from_raw_u32(i).unwrap(), EntityGeneration::from_bits(g))
}
fn mark(e: Entity) -> Entity { Entity::from_bits(e.to_bits() | MARK) }
/// what arrives at the other end of the wire
fn wire(e: Entity) -> Entity {
    let mut w = Writer::default();
    e.to_bytes(&mut w).unwrap();
    let b = w.into_bytes();
    assert!(b.len() == e.bytes_len());
    let mut r = Reader::from(b.clone());
    let d = Entity::from_bytes(&mut r).unwrap();
    assert!(r.position() == b.len() as u64);
    d
}

natives! {
    fn c24_map(s) {
        let mut m = RemoteEntityMap::default();
        let mut fwd: BTreeMap<Entity, Entity> = BTreeMap::new(); // remote -> local
        let small = s.range(0, 2) > 0;
        let pool_r: Vec<Entity> = (0..8).map(|_| ent(s, small)).collect();
        let pool_l: Vec<Entity> = (0..8).map(|_| ent(s, small)).collect();
        for _ in 0..s.range(1, 30) {
            let r = pool_r[s.below(8)];
            let l = pool_l[s.below(8)];
            let back = fwd.iter().find(|x| *x.1 == l).map(|x| *x.0);
            match s.range(0, 9) {
                0..=4 => {
                    // keep the mapping one-to-one, as the replication receiver does
                    if (fwd.get(&r).is_none() && back.is_none()) || fwd.get(&r) == Some(&l) { m.insert(r, l); fwd.insert(r, l); }
                }
                5 | 6 => { let want = fwd.remove(&r); assert!(m.remove_by_remote(r) == want, "removing by the remote name returns the local entity"); }
                7 => { assert!(m.remove_by_remote(mark(l)) == Some(l), "a marked name is the receiver's own entity"); if let Some(b) = back { fwd.remove(&b); } }
                8 if s.range(0, 4) == 0 => { m.clear(); fwd.clear(); }
                _ => {}
            }
            for e in &pool_r {
                assert!(m.get_local(*e) == fwd.get(e).copied(), "remote to local");
                assert!(m.get_local(mark(*e)) == Some(*e), "a marked name is the receiver's own entity");
            }
            for e in &pool_l {
                let b = fwd.iter().find(|x| x.1 == e).map(|x| *x.0);
                assert!(m.get_remote(*e) == b, "local to remote is the inverse of remote to local");
                assert!(m.to_remote(*e) == b.map(mark).unwrap_or(*e), "mapped entities are sent marked, others unchanged");
            }
        }
    }
    fn c24_both_ends(s) {
        // peer A replicated entities to B: B knows them by other names. Whoever sends a reference, it denotes the same entity at the other end.
        let mut a = RemoteEntityMap::default(); // A's map: empty, or with entities B spawned
        let mut b = RemoteEntityMap::default();
        let mut pairs: Vec<(Entity, Entity)> = vec![]; // (name on A, name on B)
        let small = s.coin();
        for _ in 0..s.range(0, 10) {
            let (x, y) = (ent(s, small), ent(s, small));
            if pairs.iter().any(|p| p.0 == x || p.1 == y) { continue; }
            pairs.push((x, y));
            // the receiving side of the replication records the pair; sometimes both do (authority moved)
            match s.range(0, 2) {
                0 => b.insert(x, y),
                1 => a.insert(y, x),
                _ => { b.insert(x, y); a.insert(y, x); }
            }
        }
        for (x, y) in pairs.iter().copied() {
            // sent by A, received by B (by replication, and inside a message)
            assert!(b.get_local(wire(a.to_remote(x))) == Some(y), "a reference sent by one peer denotes the same entity at the other");
            assert!(a.get_local(wire(b.to_remote(y))) == Some(x), "and back");
            let sent = a.local_to_remote.get_mapped(x);
            assert!(b.remote_to_local.get_mapped(wire(sent)) == y, "mapping while serializing and deserializing");
            let sent = b.local_to_remote.get_mapped(y);
            assert!(a.remote_to_local.get_mapped(wire(sent)) == x);
        }
        // a reference neither side knows is never another entity
        let z = ent(s, small);
        if !pairs.iter().any(|p| p.0 == z || p.1 == z) {
            assert!(b.get_local(wire(a.to_remote(z))).is_none());
            let sent = a.local_to_remote.get_mapped(z);
            assert!(b.remote_to_local.get_mapped(wire(sent)) == Entity::PLACEHOLDER, "an unknown reference becomes the placeholder");
        }
    }
    fn c24_mappers(s) {
        let (mut e, mut t, mut r) = (EntityMap::default(), SendEntityMap::default(), ReceiveEntityMap::default());
        let mut m: BTreeMap<Entity, Entity> = BTreeMap::new();
        let pool: Vec<Entity> = (0..6).map(|_| ent(s, s.bound(1, 1) == 2)).collect();
        for _ in 0..s.range(0, 8) {
            let (x, y) = (pool[s.below(6)], pool[s.below(6)]);
            e.set_mapped(x, y); t.set_mapped(x, y); r.set_mapped(x, y); m.insert(x, y);
            for x in &pool {
                let y = m.get(x).copied();
                assert!(e.get_mapped(*x) == y.unwrap_or(*x), "an optional mapping leaves unknown entities alone");
                assert!(t.get_mapped(*x) == y.map(mark).unwrap_or(*x));
                assert!(r.get_mapped(*x) == y.unwrap_or(Entity::PLACEHOLDER));
                assert!(r.get_mapped(mark(*x)) == *x);
            }
        }
    }
}

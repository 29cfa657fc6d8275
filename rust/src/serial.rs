//! S03 collections, byte strings, message framing and user types on the wire.
use crate::util::biggest_alloc;
use crate::{Src, natives};
use bevy_ecs::entity::{Entity, EntityMapper, MapEntities};
use bevy_platform::collections::HashMap;
use bytes::Bytes;
use lightyear_core::id::PeerId;
use lightyear_core::tick::Tick;
use lightyear_serde::ToBytes;
use lightyear_serde::entity_map::{ReceiveEntityMap, SendEntityMap};
use lightyear_serde::reader::{ReadInteger, ReadVarInt, Reader};
use lightyear_serde::registry::{ContextDeserializeFns, ContextSerializeFns, ErasedSerializeFns, SerializeFns};
use lightyear_serde::writer::{WriteInteger, Writer};
use lightyear_transport::verif::message as vm;
use serde::{Deserialize, Serialize};
use smallvec::SmallVec;

fn peer<S: Src>(s: &mut S) -> PeerId { match s.range(0, 4) { 0 => PeerId::Netcode(s.u64() >> 2), 1 => PeerId::Steam(s.u64() >> 2), 2 => PeerId::Local(s.u64() >> 2), 3 => PeerId::Entity(s.u64() >> 2), _ => PeerId::Server } }
fn len<S: Src>(s: &mut S) -> usize { (match s.range(0, 9) { 0 => s.range(60, 70), 1 if !S::SYM => s.range(16380, 16390) / 16, 2 => s.range(0, 300), _ => s.range(0, 6) }) as usize }

/// value -> bytes -> value, declared length, following bytes untouched, every strict prefix rejected
fn trip<S: Src, T: ToBytes + PartialEq>(s: &mut S, v: &T) -> Bytes {
    let lead = s.below(4);
    let tail = s.below(4);
    let mut w = Writer::default();
    for _ in 0..lead { w.write_u8(0xEE).unwrap(); }
    v.to_bytes(&mut w).unwrap();
    let n = w.len() - lead;
    assert!(n == v.bytes_len(), "declared length");
    for _ in 0..tail { w.write_u8(0xAA).unwrap(); }
    let b = w.into_bytes();
    let mut r = Reader::from(b.clone());
    for _ in 0..lead { r.read_u8().unwrap(); }
    let d = T::from_bytes(&mut r);
    assert!(d.is_ok_and(|d| d == *v), "round trip");
    assert!(r.position() == (lead + n) as u64 && r.remaining() == tail, "exactly the encoding is consumed");
    let e = b.slice(lead..lead + n);
    let cut = s.below(n.max(1));
    if n > 0 { assert!(T::from_bytes(&mut Reader::from(e.slice(..cut))).is_err(), "a strict prefix is an error"); }
    e
}
/// arbitrary bytes: an error or a value whose encoding is no longer than what was read; never a large reservation
fn total<S: Src, T: ToBytes>(s: &mut S, elem: usize) {
    let n = s.range(0, 40) as usize;
    let mut b = s.blob(n);
    if s.coin() {
        // a claimed length far beyond the data
        let mut w = Writer::default();
        w.write_varint(match s.range(0, 3) { 0 => s.u64() >> 2, 1 => s.range(1 << 20, 1 << 30), 2 => (1 << 62) - 1, _ => s.range(1 << 32, 1 << 45) }).unwrap();
        let k = s.below(3);
        let p = if k == 0 { vec![] } else { s.blob(k) };
        b = [p, w.into_bytes().to_vec(), b].concat();
    }
    let have = b.len();
    let mut r = Reader::from(Bytes::from(b));
    let (v, big) = biggest_alloc(|| T::from_bytes(&mut r));
    assert!(big <= 4096 + have * (elem + 16) * 4, "memory is bounded by the bytes received, not by a claimed length");
    assert!(r.position() <= have as u64);
    drop(v);
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum E { A, B(i64), C { x: Option<u32>, s: String } }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct User { id: u64, list: Vec<E>, f: f64, b: bool, e: Vec<Entity>, t: (u8, i16, char), o: Option<Box<User>> }
impl MapEntities for User {
    fn map_entities<M: EntityMapper>(&mut self, m: &mut M) {
        for e in &mut self.e { *e = m.get_mapped(*e); }
        if let Some(o) = &mut self.o { o.map_entities(m); }
    }
}
fn user<S: Src>(s: &mut S, d: usize, pool: &[Entity]) -> User {
    User {
        id: s.u64(),
        list: (0..s.below(4)).map(|_| match s.range(0, 2) { 0 => E::A, 1 => E::B(s.i64()), _ => E::C { x: if s.coin() { Some(s.u32()) } else { None }, s: (0..s.below(5)).map(|_| ['a', 'é', '∞', '\0'][s.below(4)]).collect() } }).collect(),
        f: s.range(0, 1000) as f64 / 7.0,
        b: s.coin(),
        e: (0..s.below(4)).map(|_| pool[s.below(pool.len())]).collect(),
        t: (s.u8(), s.i16(), 'x'),
        o: if d > 0 && s.coin() { Some(Box::new(user(s, d - 1, pool))) } else { None },
    }
}

natives! {
    fn s03_collections(s) {
        match s.range(0, 8) {
            0 => { let n = len(s); let b = Bytes::from(s.blob(n)); trip(s, &b); }
            1 => { let v: Vec<u8> = { let n = len(s); s.blob(n) }; trip(s, &v); }
            2 => {
                let v: Vec<u16> = (0..len(s)).map(|_| s.u16()).collect();
                let a = trip(s, &v);
                let sv: SmallVec<[u16; 4]> = v.into_iter().collect();
                let b = trip(s, &sv);
                assert!(a == b, "an inline list has the format of a vector");
            }
            3 => { let v: SmallVec<[PeerId; 4]> = (0..len(s)).map(|_| peer(s)).collect(); trip(s, &v); }
            4 => { let v: HashMap<u16, Bytes> = (0..s.range(0, 12)).map(|_| { let k = s.u16(); let n = s.below(4); (k, Bytes::from(s.blob(n))) }).collect(); trip(s, &v); }
            5 => { let v: HashMap<PeerId, Vec<Tick>> = (0..s.range(0, 8)).map(|_| (peer(s), (0..s.below(4)).map(|_| Tick(s.u32())).collect())).collect(); trip(s, &v); }
            6 => { let v: Vec<Vec<Option<(u8, u16)>>> = (0..s.below(5)).map(|_| (0..s.below(5)).map(|_| if s.coin() { Some((s.u8(), s.u16())) } else { None }).collect()).collect(); trip(s, &v); }
            7 => { let v: Vec<Entity> = (0..s.below(7)).map(|_| Entity::from_raw_u32(s.u32().min(u32::MAX - 1)).unwrap()).collect(); trip(s, &v); }
            _ => { let n = len(s); let v = (Bytes::from(s.blob(n)), { let n = s.below(4); s.blob(n) }, Some(Bytes::from_static(b"xyz")), s.u16()); trip(s, &v); }
        }
    }
    fn s03_total(s) {
        match s.range(0, 8) {
            0 => total::<S, Bytes>(s, 1),
            1 => total::<S, Vec<u8>>(s, 1),
            2 => total::<S, Vec<u16>>(s, 2),
            3 => total::<S, SmallVec<[PeerId; 4]>>(s, 16),
            4 => total::<S, HashMap<u16, Bytes>>(s, 64),
            5 => total::<S, HashMap<PeerId, Vec<Tick>>>(s, 64),
            6 => total::<S, Vec<Vec<Option<(u8, u16)>>>>(s, 24),
            7 => total::<S, Vec<Entity>>(s, 8),
            _ => total::<S, (Bytes, Vec<u8>, Option<Bytes>, u16)>(s, 1),
        }
    }
    fn s03_messages(s) {
        // the framing of single messages and fragments
        let n = len(s);
        let b = Bytes::from(s.blob(n));
        let tail = s.below(4);
        let mut w = Writer::default();
        if s.coin() {
            let id = if s.coin() { Some(s.u16()) } else { None };
            let n = vm::single_encode(id, &b, &mut w);
            assert!(n == w.len(), "declared length");
            for _ in 0..tail { w.write_u8(1).unwrap(); }
            let e = w.into_bytes();
            let mut r = Reader::from(e.clone());
            assert!(vm::single_decode(&mut r) == Some((id, b)) && r.position() == n as u64, "single message round trip");
            let cut = s.below(n);
            assert!(vm::single_decode(&mut Reader::from(e.slice(..cut))).is_none());
        } else {
            let i = if s.coin() { 0 } else { s.u64() >> 2 };
            let f: vm::F = (s.u16(), i, s.u64() >> 2, if i == 0 { Some(s.range(0, 1) as u8) } else { None }, b);
            let n = vm::fragment_encode(&f, &mut w);
            assert!(n == w.len(), "declared length");
            for _ in 0..tail { w.write_u8(1).unwrap(); }
            let e = w.into_bytes();
            let mut r = Reader::from(e.clone());
            assert!(vm::fragment_decode(&mut r) == Some(f.clone()) && r.position() == n as u64, "fragment round trip");
            let cut = s.below(n);
            assert!(vm::fragment_decode(&mut Reader::from(e.slice(..cut))).is_none());
        }
        let k = s.below(40);
        let junk = s.blob(k);
        let (_, big) = biggest_alloc(|| { let _ = vm::single_decode(&mut Reader::from(junk.clone())); let _ = vm::fragment_decode(&mut Reader::from(junk.clone())); });
        assert!(big <= 4096 + k * 64);
    }
    fn s03_user_types(s) {
        // registered types go through serde, entity fields through the entity maps
        let pool: Vec<Entity> = (1..6).map(|i| Entity::from_raw_u32(i).unwrap()).collect();
        let u = user(s, 2, &pool);
        let v = user(s, 1, &pool);
        let f = SerializeFns::<User>::default();
        let fns = ErasedSerializeFns::new::<SendEntityMap, ReceiveEntityMap, User, User>(
            ContextSerializeFns::new(f.serialize).with_context(|m: &mut SendEntityMap, x: &User, w: &mut Writer, f| { let mut c = x.clone(); c.map_entities(m); f(&c, w) }),
            ContextDeserializeFns::new(f.deserialize).with_context(|m: &mut ReceiveEntityMap, r: &mut Reader, f| { let mut c = f(r)?; c.map_entities(m); Ok(c) }));
        let (mut tx, mut rx) = (SendEntityMap::default(), ReceiveEntityMap::default());
        let far = |e: Entity| Entity::from_raw_u32(e.index_u32() + 100).unwrap();
        let mut known = vec![];
        for e in &pool { match s.range(0, 2) { 0 => { tx.set_mapped(*e, far(*e)); known.push(*e); } 1 => { rx.set_mapped(*e, far(*e)); known.push(*e); } _ => {} } }
        let mut w = Writer::default();
        let pre = s.below(5);
        let p = s.blob(pre);
        w.extend_from_slice(&p);
        unsafe { fns.serialize::<SendEntityMap, User, User>(&u, &mut w, &mut tx).unwrap() };
        let mid = w.len();
        unsafe { fns.serialize::<SendEntityMap, User, User>(&v, &mut w, &mut tx).unwrap() };
        let b = w.into_bytes();
        assert!(b[..pre] == p[..], "earlier bytes are untouched");
        let mut r = Reader::from(b.clone());
        r.set_position(pre as u64);
        let du = unsafe { fns.deserialize::<ReceiveEntityMap, User, User>(&mut r, &mut rx).unwrap() };
        assert!(r.position() == mid as u64, "exactly the value is consumed");
        let dv = unsafe { fns.deserialize::<ReceiveEntityMap, User, User>(&mut r, &mut rx).unwrap() };
        assert!(r.remaining() == 0);
        struct Far(Vec<Entity>);
        impl EntityMapper for Far {
            fn get_mapped(&mut self, e: Entity) -> Entity { if self.0.contains(&e) { Entity::from_raw_u32(e.index_u32() + 100).unwrap() } else { Entity::PLACEHOLDER } }
            fn set_mapped(&mut self, _: Entity, _: Entity) {}
        }
        let (mut wu, mut wv) = (u, v);
        let mut far = Far(known);
        wu.map_entities(&mut far);
        wv.map_entities(&mut far);
        assert!(du == wu && dv == wv, "user values arrive unchanged, with their entities mapped");
        // a truncated value is an error
        let cut = pre + s.below(mid - pre);
        let mut r = Reader::from(b.slice(..cut));
        r.set_position(pre as u64);
        assert!(unsafe { fns.deserialize::<ReceiveEntityMap, User, User>(&mut r, &mut rx) }.is_err(), "a truncated value is an error");
        let n = s.below(60);
        let junk = s.blob(n);
        let (_, big) = biggest_alloc(|| (f.deserialize)(&mut Reader::from(junk)).is_ok());
        assert!(big <= 1 << 20);
    }
    fn s03_reader(s) {
        let n = s.below(30);
        let b = s.blob(n);
        let mut r = Reader::from(b.clone());
        let mut at = 0usize;
        for _ in 0..s.range(0, 10) {
            assert!(r.len() == n && r.position() == at as u64 && r.remaining() == n - at && r.has_remaining() == (at < n) && r.remaining_slice() == &b[at..]);
            match s.range(0, 4) {
                0 => { let k = match s.range(0, 3) { 0 => usize::MAX - s.below(3), _ => s.below(n + 3) }; match r.split_len(k) { Ok(x) => { assert!(x[..] == b[at..at + k], "a slice of the data"); at += k; } Err(_) => assert!(k > n - at) } }
                1 => { match r.read_u8() { Ok(x) => { assert!(x == b[at]); at += 1; } Err(_) => assert!(at == n) } }
                2 => { if n - at >= 4 { assert!(r.read_u32().unwrap() == u32::from_be_bytes(b[at..at + 4].try_into().unwrap())); at += 4; } }
                3 => { if let Ok(v) = r.clone().read_varint() { let _ = v; let l = 1usize << (b[at] >> 6); assert!(n - at >= l); } }
                _ => { let mut c = r.clone(); assert!(c.take_remaining()[..] == b[at..]); }
            }
        }
        assert!(r.into_bytes()[..] == b[..]);
    }
}

//! S01 / S02: integer, varint and value codecs.
use crate::util::*;
use crate::{Src, harnesses};
use bevy_ecs::entity::{Entity, EntityGeneration, EntityIndex};
use core::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use lightyear_core::id::PeerId;
use lightyear_core::tick::Tick;
use lightyear_core::time::{Overstep, PositiveTickDelta};
use lightyear_serde::ToBytes;
use lightyear_serde::reader::{ReadInteger, ReadVarInt};
use lightyear_serde::varint::{varint_len, varint_parse_len};
use lightyear_serde::writer::WriteInteger;

const VMAX: u64 = (1 << 62) - 1;

pub fn any_entity<S: Src>(s: &mut S) -> Entity {
    let idx = s.u32();
    s.assume(idx != u32::MAX);
    let generation = s.u32();
    let row = EntityIndex::from_raw_u32(idx).expect("valid index");
    Entity::from_index_and_generation(row, EntityGeneration::from_bits(generation))
}

pub fn any_addr<S: Src>(s: &mut S) -> SocketAddr {
    let port = s.u16();
    if s.bool() {
        SocketAddr::new(IpAddr::V4(Ipv4Addr::from(s.u32())), port)
    } else {
        let a = ((s.u64() as u128) << 64) | s.u64() as u128;
        SocketAddr::new(IpAddr::V6(Ipv6Addr::from(a)), port)
    }
}

pub fn any_peer<S: Src>(s: &mut S) -> PeerId {
    match s.range(0, 5) {
        0 => PeerId::Entity(s.u64()),
        1 => PeerId::Raw(any_addr(s)),
        2 => PeerId::Netcode(s.u64()),
        3 => PeerId::Steam(s.u64()),
        4 => PeerId::Local(s.u64()),
        _ => PeerId::Server,
    }
}

/// varint wire format: length class from the value, two-bit tag, big endian.
fn varint_spec(v: u64) -> ([u8; 8], usize) {
    if v < 1 << 6 {
        ([v as u8, 0, 0, 0, 0, 0, 0, 0], 1)
    } else if v < 1 << 14 {
        let b = (v as u16 | 0x4000).to_be_bytes();
        ([b[0], b[1], 0, 0, 0, 0, 0, 0], 2)
    } else if v < 1 << 30 {
        let b = (v as u32 | 0x8000_0000).to_be_bytes();
        ([b[0], b[1], b[2], b[3], 0, 0, 0, 0], 4)
    } else {
        ((v | 0xC000_0000_0000_0000).to_be_bytes(), 8)
    }
}

harnesses! { codec;
    // ---- S01 -------------------------------------------------------------
    fn s01_varint_len(s) {
        let v = s.u64();
        s.assume(v <= VMAX);
        let l = varint_len(v);
        let expect = if v < 1 << 6 { 1 } else if v < 1 << 14 { 2 } else if v < 1 << 30 { 4 } else { 8 };
        assert!(l == expect, "varint_len: shortest class that fits");
    }
    fn s01_varint_parse_len(s) {
        let b = s.u8();
        assert!(varint_parse_len(b) == 1usize << (b >> 6), "length class is the two top bits");
    }
    #[kani::unwind(10)]
    fn s01_varint_write(s) {
        let v = s.u64();
        s.assume(v <= VMAX);
        let mut w = Sink::new();
        match w.write_varint(v) { Ok(()) => {}, Err(e) => { core::mem::forget(e); panic!("write_varint failed"); } }
        let (b, n) = varint_spec(v);
        assert!(w.len == n && w.len == varint_len(v), "varint bytes written");
        let i = s.below(8);
        assert!(w.buf[i] == b[i], "varint wire format");
    }
    #[kani::unwind(10)]
    fn s01_varint_roundtrip(s) {
        let v = s.u64();
        s.assume(v <= VMAX);
        let mut w = Sink::new();
        match w.write_varint(v) { Ok(()) => {}, Err(e) => { core::mem::forget(e); panic!("write_varint failed"); } }
        let n = w.len;
        // trailing garbage is symbolic and must not influence the result
        let g = s.u8();
        if n < CAP { w.buf[n] = g; }
        let mut r = reader_of(w.buf, CAP);
        let got = opt(r.read_varint());
        assert!(got == Some(v), "varint round trip");
        assert!(r.position() == n as u64, "varint reader consumes what was written");
        core::mem::forget(r);
    }
    #[kani::unwind(10)]
    fn s01_varint_decode_value(s) {
        // any bytes: the value announced by the tag, big endian, consuming exactly the announced length
        let mut buf = [0u8; CAP];
        for i in 0..8 { buf[i] = s.u8(); }
        let mut r = reader_of(buf, CAP);
        let n = 1usize << (buf[0] >> 6);
        let mut x = (buf[0] & 0x3f) as u64;
        for i in 1..8 { if i < n { x = (x << 8) | buf[i] as u64; } }
        assert!(opt(r.read_varint()) == Some(x), "varint decoded value");
        assert!(r.position() == n as u64, "consumed length");
        core::mem::forget(r);
    }
    #[kani::unwind(10)]
    fn s01_varint_decode_total(s) {
        // truncated input is an error, complete input is not; no panic either way
        let mut buf = [0u8; CAP];
        buf[0] = s.u8();
        buf[1] = s.u8();
        let len = s.range(0, 8) as usize;
        let mut ok = false;
        for l in 0..9 {
            if l == len {
                let mut r = reader_of(buf, l);
                ok = opt(r.read_varint()).is_some();
                core::mem::forget(r);
            }
        }
        assert!(ok == (len > 0 && len >= 1usize << (buf[0] >> 6)), "truncated varint accepted / complete varint rejected");
    }
    #[kani::unwind(10)]
    fn s01_u8_u16(s) {
        let a = s.u8(); let b = s.u16(); let c = s.u8() as i8; let d = s.i16();
        let mut w = Sink::new();
        let ok = w.write_u8(a).is_ok() && w.write_u16(b).is_ok() && w.write_i8(c).is_ok() && w.write_i16(d).is_ok();
        assert!(ok && w.len == 6, "fixed-width integer sizes");
        assert!(w.buf[0] == a && w.buf[1] == (b >> 8) as u8 && w.buf[2] == b as u8, "big endian");
        let mut r = w.reader();
        assert!(matches!(r.read_u8(), Ok(x) if x == a));
        assert!(matches!(r.read_u16(), Ok(x) if x == b));
        assert!(matches!(r.read_i8(), Ok(x) if x == c));
        assert!(matches!(r.read_i16(), Ok(x) if x == d));
        assert!(r.position() == 6);
        core::mem::forget(r);
    }
    #[kani::unwind(10)]
    fn s01_u32_u64(s) {
        let a = s.u32(); let b = s.u64(); let c = s.i32(); let d = s.i64();
        let mut w = Sink::new();
        let ok = w.write_u32(a).is_ok() && w.write_u64(b).is_ok() && w.write_i32(c).is_ok() && w.write_i64(d).is_ok();
        assert!(ok && w.len == 24, "fixed-width integer sizes");
        let i = s.below(4);
        assert!(w.buf[i] == a.to_be_bytes()[i], "big endian");
        let j = s.below(8);
        assert!(w.buf[4 + j] == b.to_be_bytes()[j], "big endian");
        let mut r = w.reader();
        assert!(matches!(r.read_u32(), Ok(x) if x == a));
        assert!(matches!(r.read_u64(), Ok(x) if x == b));
        assert!(matches!(r.read_i32(), Ok(x) if x == c));
        assert!(matches!(r.read_i64(), Ok(x) if x == d));
        assert!(r.position() == 24);
        core::mem::forget(r);
    }
    #[kani::unwind(10)]
    fn s01_int_truncated(s) {
        // reading past the end is an error for every width, never a value
        let mut buf = [0u8; CAP];
        for i in 0..8 { buf[i] = s.u8(); }
        let w = s.range(0, 3);
        for len in 0..9 {
            let mut r = reader_of(buf, len);
            let (ok, need) = match w {
                0 => (r.read_u8().is_ok(), 1),
                1 => (r.read_u16().is_ok(), 2),
                2 => (r.read_u32().is_ok(), 4),
                _ => (r.read_u64().is_ok(), 8),
            };
            assert!(ok == (len >= need), "truncated integer accepted / complete integer rejected");
            core::mem::forget(r);
        }
    }
    // ---- S02 -------------------------------------------------------------
    #[kani::unwind(10)]
    fn s02_u8_u16(s) {
        let a = s.u8();
        assert!(roundtrip(&a) == a);
        let b = s.u16();
        assert!(roundtrip(&b) == b);
    }
    #[kani::unwind(10)]
    fn s02_u16_decode_range(s) {
        // a varint that does not fit u16 is not silently truncated into another value
        let v = s.u64();
        s.assume(v <= VMAX);
        let mut w = Sink::new();
        match w.write_varint(v) { Ok(()) => {}, Err(e) => { core::mem::forget(e); panic!(); } }
        let mut r = reader_of(w.buf, CAP);
        match opt(u16::from_bytes(&mut r)) {
            Some(x) => assert!(x as u64 == v, "u16 decoder returned a value the wire does not hold"),
            None => assert!(v > u16::MAX as u64),
        }
        core::mem::forget(r);
    }
    #[kani::unwind(10)]
    fn s02_tick(s) {
        let t = Tick(s.u32());
        assert!(roundtrip(&t) == t);
    }
    #[kani::unwind(18)]
    fn s02_peer_id(s) {
        let p = any_peer(s);
        assert!(roundtrip(&p) == p, "PeerId round trip");
    }
    #[kani::unwind(18)]
    fn s02_peer_id_truncated(s) {
        let p = any_peer(s);
        truncated(s, &p);
    }
    #[kani::unwind(10)]
    fn s02_entity(s) {
        let e = any_entity(s);
        assert!(roundtrip(&e) == e, "Entity round trip");
    }
    #[kani::unwind(10)]
    fn s02_overstep(s) {
        let o = Overstep::from_u8(s.u8());
        let g = roundtrip(&o);
        assert!(g == o && g.value() == o.value(), "quantised overstep round trip");
        // quantisation of an arbitrary overstep floors to 1/256
        let bits = s.u16();
        let o = Overstep::new(fixed::types::U0F16::from_bits(bits));
        let g = roundtrip(&o);
        assert!(g.value().to_bits() == (bits >> 8) << 8, "overstep is sent as its top 8 bits");
    }
    #[kani::unwind(10)]
    fn s02_positive_tick_delta(s) {
        let bits = s.u64();
        let d = PositiveTickDelta { value: fixed::types::U32F32::from_bits(bits) };
        let g = roundtrip(&d);
        // integer part exact, fraction quantised to 8 bits
        assert!(g.value.to_bits() == bits & 0xFFFF_FFFF_FF00_0000, "tick delta wire precision");
        assert!(g.tick_diff() == (bits >> 32) as u32);
    }
    #[kani::unwind(10)]
    fn s02_option_tuple(s) {
        let v: (Option<u16>, Option<Tick>, u8) = (
            if s.bool() { Some(s.u16()) } else { None },
            if s.bool() { Some(Tick(s.u32())) } else { None },
            s.u8(),
        );
        let g = roundtrip(&v);
        assert!(g == v, "Option / tuple round trip");
    }
}

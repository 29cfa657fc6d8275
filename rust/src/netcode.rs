//! N16-N19: netcode replay protection, packet codec, tokens, server session table.
use crate::{Src, harnesses, natives};
use lightyear_netcode::verif::{packet as vp, replay as vr};
#[cfg(not(kani))]
use lightyear_netcode::verif::{packet::VPkt, server as vs, token as vt};

fn state<S: Src>(s: &mut S) -> vr::ReplayProtection {
    let mr = s.u64();
    let mut buf = s.words::<{ vr::SIZE }>();
    if !S::SYM {
        // natively, make the slots plausible often enough: empty, or a sequence of that slot
        for (i, b) in buf.iter_mut().enumerate() {
            match *b % 4 {
                0 => *b = u64::MAX,
                1 => {}
                _ => {
                    let back = (*b >> 8) % 3;
                    let base = mr.wrapping_sub(back * 256);
                    *b = base.wrapping_sub((base.wrapping_sub(i as u64)) % 256);
                }
            }
        }
    }
    vr::make(mr, buf)
}

/// state whose slot i satisfies the slot invariant: empty, or a sequence of that slot not above the most recent
fn slotted<S: Src>(s: &mut S) -> (u64, [u64; vr::SIZE], usize) {
    let i = s.u8() as usize;
    let mr = s.u64();
    let mut buf = if S::SYM { s.words::<{ vr::SIZE }>() } else { [u64::MAX; vr::SIZE] };
    if !S::SYM && s.coin() {
        buf[i] = near(s, mr, i);
    }
    let slot = buf[i];
    s.assume(slot == u64::MAX || (slot % 256 == i as u64 && slot <= mr));
    (mr, buf, i)
}
/// a sequence of slot i close to mr
fn near<S: Src>(s: &mut S, mr: u64, i: usize) -> u64 {
    let base = mr.wrapping_add(512).wrapping_sub(256 * s.range(0, 5));
    base.wrapping_sub(base.wrapping_sub(i as u64) % 256)
}

harnesses! { netcode;
    // ---- N16 -------------------------------------------------------------
    /// post-condition of advance: what was accepted is from now on known as received
    fn n16_accept_marks(s) {
        let mut r = state(s);
        let q = s.u64();
        s.assume(!r.is_already_received(q));
        r.advance_sequence(q);
        assert!(r.is_already_received(q), "an accepted sequence can be accepted again");
    }
    /// frame of advance: whatever was already received stays received, for every later accepted sequence
    fn n16_received_is_stable(s) {
        let mut r = state(s);
        let q = s.u64();
        let t = s.u64();
        s.assume(r.is_already_received(q));
        s.assume(!r.is_already_received(t));
        r.advance_sequence(t);
        assert!(r.is_already_received(q), "an already received sequence becomes acceptable again");
    }
    /// reject exactly replays and too old sequences, given the invariant on the slot of q
    fn n16_exact(s) {
        let (mr, buf, i) = slotted(s);
        let q = if S::SYM { s.u64() } else { near(s, mr, i) };
        s.assume(q % 256 == i as u64);
        let slot = buf[i];
        let r = vr::make(mr, buf);
        let old = match q.checked_add(256) { None => true, Some(e) => e <= mr };
        assert!(r.is_already_received(q) == (old || slot == q), "replay decision");
    }
    /// the invariant used above is kept by advance: fresh sequences of any slot stay acceptable
    fn n16_invariant(s) {
        let (mr, buf, i) = slotted(s);
        let slot = buf[i];
        let mut r = vr::make(mr, buf);
        let q = if S::SYM { s.u64() } else { let j = s.below(256); near(s, mr, j) };
        s.assume(!r.is_already_received(q));
        r.advance_sequence(q);
        let (m2, s2) = (vr::most_recent(&r), vr::slot(&r, i));
        assert!(m2 == mr.max(q), "most recent sequence is the maximum accepted");
        assert!(s2 == u64::MAX || (s2 % 256 == i as u64 && s2 <= m2), "slot invariant");
        assert!(s2 == if q % 256 == i as u64 { q } else { slot }, "advance touches only its slot");
    }
    fn n16_fresh_accepts(s) {
        let mut r = vr::fresh();
        let (a, b) = (s.u64(), s.u64());
        s.assume(a < u64::MAX - 512 && b < u64::MAX - 512);
        assert!(!r.is_already_received(a), "fresh state accepts");
        r.advance_sequence(a);
        let old = b + 256 <= a;
        if a != b && !old {
            // a different sequence of the window is accepted, in whatever order they arrive
            assert!(!r.is_already_received(b) || (a % 256 == b % 256 && a > b));
        }
        if old || a == b { assert!(r.is_already_received(b)); }
    }
    // ---- N17 -------------------------------------------------------------
    #[kani::unwind(10)]
    fn n17_sequence_roundtrip(s) {
        let q = s.u64();
        let (b, n) = vp::seq_write(q);
        assert!(n == vp::seq_len(q) as usize && (1..=8).contains(&n), "sequence length");
        assert!(n == 1 || q >> (8 * (n - 1)) != 0, "shortest form");
        assert!(vp::seq_read(&b, n) == Some(q), "sequence survives the wire");
    }
    fn n17_prefix(s) {
        let q = s.u64();
        let k = s.u8();
        s.assume(k <= 6);
        let (n, kind) = vp::get_prefix(vp::prefix(k, q));
        assert!(kind == k && n == vp::seq_len(q) as usize);
    }
    #[kani::unwind(24)]
    fn n17_aead_binds(s) {
        // the associated data determines protocol id and prefix
        let (p, q) = (s.u64(), s.u64());
        let (a, b) = (s.u8(), s.u8());
        let (x, y) = (vp::aead(p, a), vp::aead(q, b));
        assert!((x == y) == (p == q && a == b));
    }
    #[kani::unwind(24)]
    fn n17_request_validate(s) {
        let mut v = *lightyear_netcode::NETCODE_VERSION;
        let i = s.below(13);
        v[i] = s.u8();
        let (pid, expire, protocol, now) = (s.u64(), s.u64(), s.u64(), s.u64());
        let r = vp::request_validate(v, pid, expire, protocol, now);
        let good = v == *lightyear_netcode::NETCODE_VERSION && pid == protocol && expire > now;
        assert!((r == 0) == good, "request accepted iff version, protocol and expiry agree");
    }
}

#[cfg(not(kani))]
fn key<S: Src>(s: &mut S) -> [u8; 32] {
    let a = s.u64();
    let mut k = [0u8; 32];
    k[..8].copy_from_slice(&a.to_le_bytes());
    k[31] = 9;
    k
}
#[cfg(not(kani))]
fn user<S: Src>(s: &mut S) -> [u8; 256] {
    let a = s.u64();
    core::array::from_fn(|i| (a >> (i % 8 * 8)) as u8 ^ i as u8)
}
#[cfg(not(kani))]
fn pkt<S: Src>(s: &mut S) -> VPkt {
    use lightyear_connection::shared::DeniedReason as D;
    match s.below(6) {
        0 => VPkt::Denied(match s.below(7) {
            0 => D::ServerFull,
            1 => D::Banned,
            2 => D::InternalError,
            3 => D::AlreadyConnected,
            4 => D::TokenAlreadyUsed,
            5 => D::InvalidToken,
            _ => {
                let n = s.below(256);
                D::Custom((0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect())
            }
        }),
        1 => VPkt::Challenge(s.u64(), vec![s.u8(); 300]),
        2 => VPkt::Response(s.u64(), vec![s.u8(); 300]),
        3 => VPkt::KeepAlive(s.u64()),
        4 => {
            let n = s.below(1201);
            let b = s.u8();
            VPkt::Payload((0..n).map(|i| b.wrapping_add(i as u8)).collect())
        }
        _ => VPkt::Disconnect,
    }
}
#[cfg(not(kani))]
fn addr<S: Src>(s: &mut S) -> std::net::SocketAddr {
    use std::net::*;
    let port = s.u16();
    if s.coin() {
        SocketAddr::from((Ipv4Addr::from(s.u32().to_be_bytes()), port))
    } else {
        let a = s.u64();
        let b = s.u64();
        SocketAddr::from((Ipv6Addr::from((a as u128) << 64 | b as u128), port))
    }
}

natives! {
    /// histories against an oracle set
    fn n16_history(s) {
        let mut r = vr::fresh();
        let mut seen = std::collections::BTreeSet::new();
        let mut max = None::<u64>;
        let mut cur = if s.coin() { s.u64() } else { s.range(0, 600) };
        let n = s.range(1, 600);
        for _ in 0..n {
            let q = match s.below(8) {
                0 => cur.wrapping_sub(s.range(0, 300)),
                1 => cur.wrapping_add(s.range(0, 300)),
                2 => cur.wrapping_sub(256),
                3 => cur.wrapping_add(256),
                4 => seen.iter().nth(s.below(seen.len() + 1)).copied().unwrap_or(cur),
                5 => s.u64(),
                _ => cur.wrapping_add(1),
            };
            let rec = r.is_already_received(q);
            assert!(!seen.contains(&q) || rec, "replayed sequence accepted");
            let in_window = q < u64::MAX - 256 && max.is_none_or(|m| q + 256 > m);
            assert!(!(in_window && !seen.contains(&q)) || !rec, "fresh in-window sequence rejected");
            if !rec {
                r.advance_sequence(q);
                seen.insert(q);
                max = Some(max.map_or(q, |m: u64| m.max(q)));
                if q < u64::MAX / 2 || s.coin() { cur = q; }
            }
        }
    }
    fn n17_roundtrip(s) {
        let (k, pid, q) = (key(s), s.u64(), s.u64());
        let p = pkt(s);
        let mut out = [0u8; 1300];
        let Some(n) = vp::write(&p, &mut out, q, &k, pid) else { panic!("write failed") };
        let mut rp = vr::fresh();
        let allowed = s.u8();
        let got = vp::read(&out[..n], pid, 0, k, Some(&mut rp), allowed);
        let may = allowed & (1 << p.kind()) != 0;
        if may && q < u64::MAX - 256 {
            assert!(got.as_ref() == Some(&p), "packet does not survive write/read");
            let again = vp::read(&out[..n], pid, 0, k, Some(&mut rp), allowed);
            if p.kind() >= 4 { assert!(again.is_none(), "replayed packet accepted"); }
        } else if !may {
            assert!(got.is_none(), "packet of a kind that is not allowed was accepted");
            // and rejecting it must not consume its sequence
            if q < u64::MAX - 256 { assert!(!rp.is_already_received(q), "rejected packet consumed its sequence"); }
        }
        if let VPkt::Payload(b) = &p {
            let mut o2 = [0u8; 1300];
            let n2 = vp::write_payload(b, &mut o2, q, &k, pid).expect("write_payload");
            assert!(out[..n] == o2[..n2], "write_payload and write agree");
        }
    }
    fn n17_tamper(s) {
        let (k, pid, q) = (key(s), s.u64(), s.range(0, 1 << 60));
        let p = pkt(s);
        let mut out = [0u8; 1300];
        let Some(n) = vp::write(&p, &mut out, q, &k, pid) else { panic!("write failed") };
        let mut rp = vr::fresh();
        let mut m = out[..n].to_vec();
        let (mut pid2, mut k2) = (pid, k);
        match s.below(5) {
            0 => { let i = s.below(n); let x = s.range(1, 255) as u8; m[i] ^= x; }
            1 => { let l = s.below(n); m.truncate(l); }
            2 => { m.push(s.u8()); }
            3 => { pid2 = pid2.wrapping_add(s.range(1, u64::MAX)); }
            _ => { k2[s.below(32)] ^= s.range(1, 255) as u8; }
        }
        let got = vp::read(&m, pid2, 0, k2, Some(&mut rp), 0x7f);
        assert!(got.is_none(), "forged or altered packet accepted");
        assert!(!rp.is_already_received(q), "a packet that does not authenticate consumed a sequence");
        // the genuine one still gets through
        let got = vp::read(&out[..n], pid, 0, k, Some(&mut rp), 0x7f);
        assert!(got.as_ref() == Some(&p));
    }
    /// arbitrary bytes, and arbitrary authenticated bodies, never panic
    fn n17_total(s) {
        let (k, pid) = (key(s), s.u64());
        let mut rp = vr::fresh();
        let n = s.below(1400);
        let fill = s.u8();
        let mut b = vec![fill; n];
        let head = n.min(24);
        for x in b.iter_mut().take(head) { *x = s.u8(); }
        let allowed = s.u8();
        let now = s.u64();
        if let Some(p) = vp::read(&b, pid, now, k, Some(&mut rp), allowed) {
            panic!("unauthenticated bytes accepted as {p:?}");
        }
        let prefix = s.u8();
        let (len, kind) = ((prefix >> 4) as usize, prefix & 15);
        let seq = s.u64();
        let bytes = seq.to_le_bytes();
        let seqb: Vec<u8> = (0..len).map(|i| bytes.get(i).copied().unwrap_or(0)).collect();
        let mut wire = [0u8; 8];
        for (w, x) in wire.iter_mut().zip(seqb.iter()) { *w = *x; }
        let wireseq = u64::from_le_bytes(wire);
        let bl = s.below(400);
        let f = s.u8();
        let mut body = vec![f; bl];
        for x in body.iter_mut().take(4) { *x = s.u8(); }
        let h = vp::hostile(prefix, &seqb, wireseq, &body, &k, pid);
        match vp::read(&h, pid, now, k, None, allowed) {
            None => {}
            Some(p) => {
                assert!(p.kind() == kind && kind <= 6, "kind comes from the prefix");
                assert!(allowed & (1 << kind) != 0, "packet of a kind that is not allowed was accepted");
                assert!(kind != 0, "connection request accepted without validation");
                if let VPkt::Payload(x) = p { assert!(x == body); }
            }
        }
    }
    fn n18_private_token(s) {
        let (k, pid, expire) = (key(s), s.u64(), s.u64());
        let nonce: [u8; 24] = core::array::from_fn(|i| i as u8 ^ 0x5a);
        let na = s.range(1, 32) as usize;
        let mut addrs = vec![];
        for _ in 0..na { let a = addr(s); addrs.push(a); }
        let p = vt::VPriv { client_id: s.u64(), timeout: s.i32(), addrs: addrs.clone(), c2s: key(s), s2c: key(s), user: user(s) };
        let enc = p.encrypt(pid, expire, nonce, &k).expect("encrypt");
        assert!(enc.len() == 1024);
        let mut e = enc.clone();
        let q = vt::VPriv::decrypt(&mut e, pid, expire, nonce, &k).expect("decrypt");
        assert!(q.client_id == p.client_id && q.timeout == p.timeout && q.addrs == p.addrs && q.c2s == p.c2s && q.s2c == p.s2c && q.user == p.user, "private token content");
        // bound to protocol, expiry, nonce and key; any altered byte is rejected
        let (mut pid2, mut ex2, mut n2, mut k2, mut e) = (pid, expire, nonce, k, enc.clone());
        match s.below(5) {
            0 => pid2 = other64(s, pid2),
            1 => ex2 = other64(s, ex2),
            2 => n2[s.below(24)] ^= s.range(1, 255) as u8,
            3 => k2[s.below(32)] ^= s.range(1, 255) as u8,
            _ => e[s.below(1024)] ^= s.range(1, 255) as u8,
        }
        assert!(vt::VPriv::decrypt(&mut e, pid2, ex2, n2, &k2).is_none(), "altered private token accepted");
    }
    fn n18_challenge_token(s) {
        let (k, id, seq, u) = (key(s), s.u64(), s.u64(), user(s));
        let c = vt::challenge(id, u, seq, &k);
        assert!(vt::unchallenge(&c, seq, &k) == Some((id, u)), "challenge token content");
        let (mut s2, mut k2, mut c2) = (seq, k, c);
        match s.below(3) {
            0 => s2 = other64(s, s2),
            1 => k2[s.below(32)] ^= s.range(1, 255) as u8,
            _ => c2[s.below(300)] ^= s.range(1, 255) as u8,
        }
        assert!(vt::unchallenge(&c2, s2, &k2).is_none(), "altered challenge token accepted");
    }
    fn n18_public_token(s) {
        use lightyear_netcode::ConnectToken;
        let (k, pid, id) = (key(s), s.u64(), s.u64());
        let na = s.range(1, 32) as usize;
        let mut addrs = vec![];
        for _ in 0..na { let a = addr(s); addrs.push(a); }
        let (timeout, expire, u) = (s.i32(), s.i32(), user(s));
        // clients are told the public addresses, the server checks the internal ones
        let mut internal = addrs.clone();
        let mut b = ConnectToken::build(&addrs[..], pid, id, k).timeout_seconds(timeout).expire_seconds(expire).user_data(u);
        if s.coin() {
            internal.clear();
            for _ in 0..s.range(1, 32) { let a = addr(s); internal.push(a); }
            b = b.internal_addresses(&internal[..]).ok().expect("internal addresses");
        }
        let t = b.generate().expect("generate");
        let a = vt::token_parts(&t);
        let other = vt::token_parts(&ConnectToken::build(&addrs[..], pid, id, k).generate().expect("generate"));
        assert!(a.nonce != other.nonce && a.c2s != other.c2s && a.s2c != other.s2c && a.c2s != a.s2c, "each token has keys and a nonce of its own, one key per direction");
        assert!(if expire < 0 { a.expire == u64::MAX } else { a.expire == a.create + expire as u64 }, "expiry");
        let bytes = t.try_into_bytes().expect("bytes");
        let b = vt::token_parts(&ConnectToken::try_from_bytes(&bytes).expect("parse"));
        assert!(a.pid == b.pid && a.create == b.create && a.expire == b.expire && a.timeout == b.timeout && a.addrs == b.addrs && a.c2s == b.c2s && a.s2c == b.s2c && a.nonce == b.nonce && a.private == b.private, "connect token survives its bytes");
        assert!(b.addrs == addrs && b.pid == pid && b.timeout == timeout);
        let mut pv = b.private.clone();
        let p = vt::VPriv::decrypt(&mut pv, pid, b.expire, b.nonce, &k).expect("private part");
        assert!(p.client_id == id && p.timeout == timeout && p.addrs == internal && p.c2s == b.c2s && p.s2c == b.s2c && p.user == u, "private part matches the public part");
        // another version, or more addresses than there can be, are refused
        let mut h = bytes;
        h[s.below(13)] ^= s.range(1, 255) as u8;
        assert!(ConnectToken::try_from_bytes(&h).is_err(), "a token of another version is accepted");
        let mut h = bytes;
        let at = 13 + 24 + 24 + 1024 + 4;
        let many = match s.below(4) { 0 => 33, 1 => 0, 2 => s.range(33, 60) as u32, _ => s.range(1, 32) as u32 };
        h[at..at + 4].copy_from_slice(&many.to_be_bytes());
        for i in 0..many.min(60) as usize { h[at + 4 + 7 * i] = 1; }
        match ConnectToken::try_from_bytes(&h) {
            Ok(t) => assert!((1..=32).contains(&many) && vt::token_parts(&t).addrs.len() == many as usize, "number of addresses"),
            Err(_) => assert!(!(1..=32).contains(&many), "a token with 1 to 32 addresses is refused"),
        }
        // hostile bytes never panic
        let mut h = bytes;
        for _ in 0..s.below(6) { let i = s.below(2048); h[i] = s.u8(); }
        let i = 13 + 24 + 24 + 1024 + 4;
        if s.coin() { h[i] = 0; h[i + 1] = 0; h[i + 2] = 0; h[i + 3] = s.u8(); }
        let cut = s.range(0, 2048) as usize;
        let _ = ConnectToken::try_from_bytes(&h[..cut]);
        if let Ok(t) = ConnectToken::try_from_bytes(&h) {
            let p = vt::token_parts(&t);
            assert!(p.create <= p.expire && !p.addrs.is_empty() && p.addrs.len() <= 32);
        }
    }
    fn n19_addr_matches(s) {
        use std::net::*;
        let pick = |s: &mut S| -> SocketAddr {
            let port = 5000 + s.range(0, 1) as u16;
            let ip: IpAddr = match s.below(7) {
                0 => Ipv4Addr::LOCALHOST.into(),
                1 => Ipv4Addr::UNSPECIFIED.into(),
                2 => Ipv6Addr::LOCALHOST.into(),
                3 => Ipv6Addr::UNSPECIFIED.into(),
                4 => Ipv4Addr::new(127, 0, 0, 2).into(),
                5 => Ipv4Addr::from(s.u32()).into(),
                _ => Ipv4Addr::new(10, 0, 0, 1).into(),
            };
            (ip, port).into()
        };
        let (a, b) = (pick(s), pick(s));
        let local = |x: IpAddr, y: IpAddr| x.is_unspecified() && y.is_loopback();
        let want = a.port() == b.port() && a.is_ipv4() == b.is_ipv4() && (a.ip() == b.ip() || local(a.ip(), b.ip()) || local(b.ip(), a.ip()));
        assert!(vs::addr_matches(a, b) == want);
        assert!(vs::addr_matches(a, b) == vs::addr_matches(b, a));
    }
    /// clients and server over a hostile network
    fn n19_session(s) {
        session(s);
    }
    fn n19_clean(s) {
        clean(s);
    }
}

/// a value that differs from `v`: anywhere, or in one bit only
#[cfg(not(kani))]
fn other64<S: Src>(s: &mut S, v: u64) -> u64 {
    if s.coin() { v ^ 1 << s.below(64) } else { v.wrapping_add(s.range(1, u64::MAX)) }
}

#[cfg(not(kani))]
#[derive(Default)]
struct Log {
    /// (connected?, client id, entity), in the order the callbacks came
    events: Vec<(bool, u64, bevy_ecs::entity::Entity)>,
}

/// A netcode server with links and token holders, and what the server announced about them.
#[cfg(not(kani))]
struct Net {
    server: lightyear_netcode::Server<Log>,
    world: bevy_ecs::world::World,
    max_clients: usize,
    links: Vec<NetLink>,
    cs: Vec<NetClient>,
    /// client id -> entity, as announced by the callbacks
    up: std::collections::BTreeMap<u64, bevy_ecs::entity::Entity>,
    /// payload numbers handed over to the application in the current session of a client id
    got_up: std::collections::BTreeMap<u64, std::collections::BTreeSet<u32>>,
    /// sequence numbers put on the wire for the current session of a client id
    seqs: std::collections::BTreeMap<u64, std::collections::BTreeSet<u64>>,
    seen: usize,
    next: u32,
    addr: std::net::SocketAddr,
}
#[cfg(not(kani))]
struct NetLink {
    e: bevy_ecs::entity::Entity,
    link: lightyear_link::Link,
    /// packets that were sent to the server over this link / to the client over this link
    up: Vec<Vec<u8>>,
    down: Vec<Vec<u8>>,
}
#[cfg(not(kani))]
struct NetClient {
    client: lightyear_netcode::client::Client<()>,
    link: lightyear_link::Link,
    home: usize,
    id: u64,
    valid: bool,
    responded: bool,
    was_up: bool,
    sent_up: std::collections::BTreeMap<u32, usize>,
    sent_down: std::collections::BTreeMap<u32, usize>,
    got_down: std::collections::BTreeSet<u32>,
    seqs: std::collections::BTreeSet<u64>,
}
#[cfg(not(kani))]
fn wire_seq(p: &[u8]) -> Option<(u8, u64)> {
    let (n, kind) = vp::get_prefix(*p.first()?);
    if kind == 0 {
        return Some((0, 0));
    }
    Some((kind, vp::seq_read(&p[1..], n)?))
}
/// `v` in its first 4 bytes, the rest follows from it
#[cfg(not(kani))]
fn numbered(v: u32, len: usize) -> Vec<u8> {
    let mut b: Vec<u8> = (0..len).map(|i| (v as usize).wrapping_mul(31).wrapping_add(i) as u8).collect();
    b[..4].copy_from_slice(&v.to_le_bytes());
    b
}
#[cfg(not(kani))]
impl Net {
    const PID: u64 = 0x1122;
    const KEY: [u8; 32] = [7u8; 32];
    fn new(max_clients: usize, n_links: usize) -> Net {
        let cfg = lightyear_netcode::ServerConfig::with_context(Log::default())
            .max_clients(max_clients)
            .keep_alive_send_rate(0.5)
            .on_connect(|id, e, ud, log: &mut Log| {
                assert!(ud[0] == id as u8 && ud[255] == (id >> 8) as u8, "on_connect gets the token's user data");
                log.events.push((true, id, e))
            })
            .on_disconnect(|id, e, log: &mut Log| log.events.push((false, id, e)));
        let server = lightyear_netcode::Server::with_config(Self::PID, Self::KEY, cfg).ok().unwrap();
        let mut world = bevy_ecs::world::World::new();
        let links = (0..n_links)
            .map(|_| NetLink { e: world.spawn_empty().id(), link: Default::default(), up: vec![], down: vec![] })
            .collect();
        Net { server, world, max_clients, links, cs: vec![], up: Default::default(), got_up: Default::default(), seqs: Default::default(), seen: 0, next: 0, addr: ([127, 0, 0, 1], 4000).into() }
    }
    /// fault: 0 none, 1 protocol, 2 server key, 3 address, 4 expired
    fn client(&mut self, home: usize, id: u64, fault: usize, timeout: i32) {
        use lightyear_netcode::client::{Client, ClientConfig};
        let bad_addr: std::net::SocketAddr = ([10, 0, 0, 1], 4000).into();
        let mut ud = [0u8; 256];
        ud[0] = id as u8;
        ud[255] = (id >> 8) as u8;
        let t = lightyear_netcode::ConnectToken::build(
            if fault == 3 { bad_addr } else { self.addr },
            if fault == 1 { Self::PID + 1 } else { Self::PID },
            id,
            if fault == 2 { [8u8; 32] } else { Self::KEY },
        )
        .expire_seconds(if fault == 4 { 0 } else { -1 })
        .timeout_seconds(timeout)
        .user_data(ud)
        .generate()
        .ok()
        .unwrap();
        let client = Client::with_config(&t.try_into_bytes().ok().unwrap(), ClientConfig::with_context(()).packet_send_rate(0.0).num_disconnect_packets(2)).ok().unwrap();
        self.cs.push(NetClient {
            client,
            link: Default::default(),
            home,
            id,
            valid: fault == 0,
            responded: false,
            was_up: false,
            sent_up: Default::default(),
            sent_down: Default::default(),
            got_down: Default::default(),
            seqs: Default::default(),
        });
    }
    fn connect(&mut self, i: usize) {
        let c = &mut self.cs[i];
        c.got_down.clear();
        c.was_up = false;
        c.client.connect();
    }
    /// the server's tables and callbacks agree, and only token holders are in
    fn check(&mut self) {
        let events = self.server.v_ctx().events.split_off(0);
        self.seen += events.len();
        for (up, id, e) in events {
            if up {
                assert!(self.cs.iter().any(|c| c.id == id && c.valid && c.responded), "announced a client without an acceptable token, or one that never answered the challenge");
                assert!(self.up.insert(id, e).is_none(), "announced a connected client again");
                self.got_up.insert(id, Default::default());
                self.seqs.insert(id, Default::default());
            } else if let Some(at) = self.up.remove(&id) {
                assert!(at == e, "a disconnection names another link than the connection did");
            }
        }
        assert!(self.server.v_tables_agree(), "session tables disagree");
        let mut now: Vec<(u64, bevy_ecs::entity::Entity)> = self.server.connected_client_ids().map(|id| (id, self.server.client_entity(id).unwrap())).collect();
        now.sort();
        let announced: Vec<_> = self.up.iter().map(|(i, e)| (*i, *e)).collect();
        assert!(now == announced, "connected clients differ from those announced");
        assert!(now.len() == self.server.num_connected_clients());
        assert!(now.len() <= self.max_clients, "more clients than max_clients");
        let mut ents: Vec<_> = now.iter().map(|(_, e)| *e).collect();
        ents.sort();
        ents.dedup();
        assert!(ents.len() == now.len(), "two clients on one link");
    }
    /// what the server put on the link of each connected client never reuses a sequence number
    fn collect_down(&mut self, l: usize) {
        let e = self.links[l].e;
        let id = self.up.iter().find(|(_, x)| **x == e).map(|(i, _)| *i);
        while let Some(p) = self.links[l].link.send.pop() {
            if let (Some(id), Some((k, q))) = (id, wire_seq(&p)) {
                if k >= 4 {
                    assert!(self.seqs.get_mut(&id).unwrap().insert(q), "the server reused a sequence number within a session");
                }
            }
            self.links[l].down.push(p.to_vec());
        }
    }
    /// bytes arrive at the server on link `l`
    fn arrive_up(&mut self, l: usize, p: Vec<u8>) {
        use bevy_ecs::prelude::*;
        self.links[l].link.recv.push_raw(lightyear_link::recv_payload_from_bytes(p.into()));
        let mut q = bevy_ecs::world::CommandQueue::default();
        {
            let mut cmds = Commands::new(&mut q, &self.world);
            let mut ec = cmds.entity(self.links[l].e);
            let _ = self.server.receive(&mut self.links[l].link, &mut ec, Some(self.addr));
        }
        q.apply(&mut self.world);
        self.check();
        let e = self.links[l].e;
        while let Some(p) = self.links[l].link.recv.pop() {
            let id = *self.up.iter().find(|(_, x)| **x == e).expect("a payload on a link without a connected client").0;
            assert!(p.len() >= 4, "server delivered bytes no client sent");
            let v = u32::from_le_bytes(p[..4].try_into().unwrap());
            let from = self.cs.iter().any(|c| c.id == id && c.sent_up.get(&v) == Some(&p.len()));
            assert!(from && p[..] == numbered(v, p.len())[..], "server delivered a payload this client did not send");
            assert!(self.got_up.get_mut(&id).unwrap().insert(v), "server delivered a payload twice");
        }
        self.server.v_send_netcode_packets(e, &mut self.links[l].link.send);
        self.collect_down(l);
    }
    fn server_tick(&mut self, dt: f64) {
        self.server.update_state(dt);
        self.check();
        for l in 0..self.links.len() {
            let e = self.links[l].e;
            if let Some(id) = self.up.iter().find(|(_, x)| **x == e).map(|(i, _)| *i) {
                self.server.v_send_keepalives(id, &mut self.links[l].link.send);
            }
            self.collect_down(l);
        }
    }
    /// the client handles what arrived and writes what it has to say
    fn client_tick(&mut self, i: usize, dt: f64) {
        let c = &mut self.cs[i];
        c.client.try_update(dt, &mut c.link.recv).ok().unwrap();
        while let Some(p) = c.link.recv.pop() {
            assert!(p.len() >= 4);
            let v = u32::from_le_bytes(p[..4].try_into().unwrap());
            assert!(c.sent_down.get(&v) == Some(&p.len()) && p[..] == numbered(v, p.len())[..], "client got a payload the server did not send to it");
            assert!(c.got_down.insert(v), "client got a payload twice");
        }
        if c.client.is_connected() && !c.was_up {
            c.was_up = true;
            assert!(c.valid, "a client with an unacceptable token got connected");
            assert!(c.client.id() == c.id, "client id differs from its token");
        }
        self.drain_client(i);
    }
    fn drain_client(&mut self, i: usize) {
        let c = &mut self.cs[i];
        c.client.v_drain(&mut c.link.send);
        while let Some(p) = c.link.send.pop() {
            if let Some((k, q)) = wire_seq(&p) {
                c.responded |= k == 3;
                if k != 0 {
                    assert!(c.seqs.insert(q), "a client reused a sequence number within a session");
                }
            }
            self.links[c.home].up.push(p.to_vec());
        }
        if !c.client.is_connected() && !c.client.is_pending() {
            c.seqs.clear();
        }
    }
    fn client_send(&mut self, i: usize, len: usize) -> bool {
        self.next += 1;
        let c = &mut self.cs[i];
        if c.client.is_connected() {
            c.sent_up.insert(self.next, len);
        }
        let was = c.link.send.len();
        c.client.send(numbered(self.next, len).into(), &mut c.link.send).ok().unwrap();
        c.link.send.len() > was
    }
    fn server_send(&mut self, i: usize, len: usize) -> bool {
        self.next += 1;
        let id = self.cs[i].id;
        let Some(e) = self.server.client_entity(id) else {
            assert!(self.server.send(numbered(self.next, len).into(), id, &mut self.links[0].link.send).is_err());
            return false;
        };
        let l = self.links.iter().position(|l| l.e == e).unwrap();
        let ok = self.server.send(numbered(self.next, len).into(), id, &mut self.links[l].link.send).is_ok();
        assert!(ok == self.up.contains_key(&id), "the server sends payloads to exactly the connected clients");
        if ok {
            for c in self.cs.iter_mut().filter(|c| c.id == id) {
                c.sent_down.insert(self.next, len);
            }
        }
        self.collect_down(l);
        ok
    }
    fn server_disconnect(&mut self, i: usize) {
        let id = self.cs[i].id;
        let l = self.server.client_entity(id).and_then(|e| self.links.iter().position(|l| l.e == e)).unwrap_or(0);
        let was = self.up.contains_key(&id);
        let _ = self.server.disconnect(id, &mut self.links[l].link.send);
        // the farewell packets belong to the session that ends
        self.collect_down(l);
        self.check();
        assert!(!was || !self.up.contains_key(&id), "disconnected, yet still announced as connected");
    }
    fn client_disconnect(&mut self, i: usize) {
        let c = &mut self.cs[i];
        if c.client.is_connected() {
            c.client.disconnect().ok().unwrap();
        }
        self.drain_client(i);
    }
    fn reset(&mut self) {
        self.server.reset();
        self.up.clear();
        self.check();
        assert!(self.server.client_ids().count() == 0, "a reset server still knows clients");
    }
}

/// Several clients (some with tokens the server must refuse, some sharing an id) and a server; the network
/// duplicates, reorders, drops, delays, alters and cross-delivers packets, token holders answer with challenges
/// that are not theirs, clients come back, and the server disconnects clients and resets.
#[cfg(not(kani))]
fn session<S: Src>(s: &mut S) {
    let n = s.range(1, 4) as usize;
    let mut net = Net::new(s.range(1, 3) as usize, n + s.below(2));
    let timeout = if s.coin() { -1 } else { 8 };
    for i in 0..n {
        let id = 0x7766_5544_3322_1100 + s.range(0, 3) * 0x101;
        let fault = s.below(10);
        net.client(i, id, if fault > 4 { 0 } else { fault }, timeout);
        net.connect(i);
    }
    let steps = s.range(10, 80);
    // a benign network half of the time, so that sessions get established
    let hostile = s.coin();
    let prelude = if s.coin() { s.range(4, 8) } else { 0 };
    for step in 0..steps + prelude {
        let quiet = step < prelude;
        let i = s.below(n);
        let kind = if quiet { 99 } else { s.below(if hostile { 22 } else { 12 }) };
        match kind {
            0 => {
                let len = 4 + s.range(0, 40) as usize;
                net.client_send(i, len);
            }
            1 => {
                let len = 4 + s.range(0, 40) as usize;
                net.server_send(i, len);
            }
            2 => {
                if s.below(4) == 0 {
                    net.server_disconnect(i);
                }
            }
            3 => {
                if s.below(4) == 0 {
                    net.client_disconnect(i);
                }
            }
            4 => {
                if !net.cs[i].client.is_connected() && !net.cs[i].client.is_pending() {
                    net.connect(i);
                }
            }
            12 => {
                // alter a packet in flight
                let l = s.below(net.links.len());
                let up = s.coin();
                let q = if up { &mut net.links[l].up } else { &mut net.links[l].down };
                let j = if q.is_empty() { 0 } else { s.below(q.len()) };
                if q.get(j).is_some_and(|p| !p.is_empty()) {
                    let mut p = q[j].clone();
                    let k = s.below(p.len());
                    match s.below(3) {
                        0 => p[k] ^= s.range(1, 255) as u8,
                        1 => p.truncate(k),
                        _ => p[k] = s.u8(),
                    }
                    q.push(p);
                }
            }
            13 | 14 => {
                // a packet turns up on another link
                let (a, b) = (s.below(net.links.len()), s.below(net.links.len()));
                if s.coin() {
                    if !net.links[a].up.is_empty() {
                        let k = s.below(net.links[a].up.len());
                        let p = net.links[a].up[k].clone();
                        net.links[b].up.push(p);
                    }
                } else if !net.links[a].down.is_empty() {
                    let k = s.below(net.links[a].down.len());
                    let p = net.links[a].down[k].clone();
                    net.links[b].down.push(p);
                }
            }
            15 => {
                let b = s.blob(40);
                let l = s.below(net.links.len());
                net.links[l].up.push(b.clone());
                net.links[l].down.push(b);
            }
            16 | 20 | 21 => {
                // dishonest holders of a token: answer with the challenge of somebody else
                let with: Vec<usize> = (0..n).filter(|j| net.cs[*j].client.v_challenge().1.iter().any(|b| *b != 0)).collect();
                if with.len() > 1 {
                    let (i, j) = (with[s.below(with.len())], with[s.below(with.len())]);
                    let t = net.cs[j].client.v_challenge();
                    if net.cs[i].client.is_pending() {
                        net.cs[i].client.v_set_challenge(t);
                        net.client_tick(i, 1.0);
                        let l = net.cs[i].home;
                        if let Some(p) = net.links[l].up.last().cloned() {
                            net.arrive_up(l, p);
                        }
                    }
                }
            }
            17 => {
                if s.below(6) == 0 {
                    net.reset();
                }
            }
            18 => {
                // the client's address changes
                net.cs[i].home = s.below(net.links.len());
            }
            _ => {
                net.server_tick(1.0);
                for i in 0..n {
                    net.client_tick(i, 1.0);
                    let l = net.cs[i].home;
                    for up in [true, false] {
                        let k = if up { net.links[l].up.len() } else { net.links[l].down.len() };
                        let base = k.saturating_sub(if quiet { 1 } else if hostile { 12 } else { 2 });
                        for _ in 0..if quiet { 1 } else { s.range(0, 3) } {
                            if k == 0 {
                                break;
                            }
                            let j = base + s.below(k - base);
                            if up {
                                let p = net.links[l].up[j].clone();
                                net.arrive_up(l, p);
                            } else {
                                let p = net.links[l].down[j].clone();
                                net.cs[i].link.recv.push_raw(lightyear_link::recv_payload_from_bytes(p.into()));
                            }
                        }
                    }
                }
            }
        }
        net.check();
    }
}

/// A network that delivers everything in order (but for `loss` per mille while `lossy`).
#[cfg(not(kani))]
fn pump<S: Src>(s: &mut S, net: &mut Net, active: &[usize], rounds: usize, loss: usize) {
    let lost = |s: &mut S| loss > 0 && s.below(1000) < loss;
    for _ in 0..rounds {
        net.server_tick(1.0);
        for &i in active {
            net.client_tick(i, 1.0);
            let l = net.cs[i].home;
            for p in core::mem::take(&mut net.links[l].up) {
                if !lost(s) {
                    net.arrive_up(l, p);
                }
            }
            for p in core::mem::take(&mut net.links[l].down) {
                if !lost(s) {
                    net.cs[i].link.recv.push_raw(lightyear_link::recv_payload_from_bytes(p.into()));
                }
            }
            net.client_tick(i, 0.0);
        }
    }
}

/// On a network that works, acceptable clients get in while there is room, every payload arrives once and in
/// order, either side (or silence) ends a session for both, and the place can be taken again.
#[cfg(not(kani))]
fn clean<S: Src>(s: &mut S) {
    let n = s.range(1, 4) as usize;
    let max = s.range(1, 3) as usize;
    let mut net = Net::new(max, n);
    let timeout = s.range(4, 9) as i32;
    for i in 0..n {
        net.client(i, 0x7766_5544_3322_1100 + (i as u64) * 0x101, 0, timeout);
    }
    // somebody began a handshake on the link of client 0 and left
    if s.coin() {
        net.client(0, 0x9900 + s.range(0, 1), 0, timeout);
        net.connect(n);
        let rounds = s.range(1, 2) as usize;
        for _ in 0..rounds {
            net.client_tick(n, 1.0);
            for p in core::mem::take(&mut net.links[0].up) {
                if wire_seq(&p).is_some_and(|(k, _)| k == 0) {
                    net.arrive_up(0, p);
                }
            }
        }
        net.links[0].down.clear();
    }
    let all: Vec<usize> = (0..n).collect();
    for i in 0..n {
        net.connect(i);
    }
    if s.coin() {
        let rounds = s.range(1, 3) as usize;
        pump(s, &mut net, &all, rounds, 500);
    }
    let mut history = vec![];
    for round in 0..s.range(1, 4) {
        pump(s, &mut net, &all, 6, 0);
        let inside: Vec<usize> = all.iter().copied().filter(|i| net.up.contains_key(&net.cs[*i].id)).collect();
        for &i in &all {
            let (is_in, c) = (inside.contains(&i), &net.cs[i]);
            assert!(c.client.is_connected() == is_in, "client and server disagree about a connection on a network that works");
            if is_in {
                assert!(net.up[&c.id] == net.links[i].e, "connected on another link");
            }
        }
        if round == 0 {
            assert!(inside.len() == n.min(max), "acceptable clients were kept out although there is room");
        }
        // payloads, in order, both ways
        for &i in &inside {
            let k = s.range(0, 4);
            let before_up: Vec<u32> = net.got_up[&net.cs[i].id].iter().copied().collect();
            let before_down = net.cs[i].got_down.len();
            let first = net.next;
            for _ in 0..k {
                let len = 4 + s.range(0, 1000) as usize;
                assert!(net.client_send(i, len), "a connected client does not send");
            }
            let mid = net.next;
            for _ in 0..k {
                let len = 4 + s.range(0, 1000) as usize;
                assert!(net.server_send(i, len), "the server does not send to a connected client");
            }
            let last = net.next;
            pump(s, &mut net, &all, 2, 0);
            assert!((first + 1..=mid).all(|v| net.got_up[&net.cs[i].id].contains(&v)), "a payload did not reach the server");
            assert!((mid + 1..=last).all(|v| net.cs[i].got_down.contains(&v)), "a payload did not reach the client");
            assert!(net.got_up[&net.cs[i].id].len() == before_up.len() + k as usize && net.cs[i].got_down.len() == before_down + k as usize);
        }
        if inside.is_empty() {
            break;
        }
        // end one of the sessions
        let i = inside[s.below(inside.len())];
        let (id, e) = (net.cs[i].id, net.links[i].e);
        match s.below(4) {
            0 => {
                net.client_disconnect(i);
                pump(s, &mut net, &all, 1, 0);
                assert!(!net.up.contains_key(&id), "the server did not notice that the client left");
            }
            1 => {
                net.server_disconnect(i);
                pump(s, &mut net, &all, 2, 0);
                assert!(!net.cs[i].client.is_connected(), "the client did not notice that the server disconnected it");
            }
            2 => {
                // silence
                let others: Vec<usize> = all.iter().copied().filter(|j| *j != i).collect();
                for t in 0..timeout + 3 {
                    net.client_tick(i, 1.0);
                    net.links[i].up.clear();
                    net.links[i].down.clear();
                    pump(s, &mut net, &others, 1, 0);
                    if t + 2 < timeout {
                        assert!(net.up.contains_key(&id) && net.cs[i].client.is_connected(), "timed out early");
                    }
                }
                assert!(!net.up.contains_key(&id), "the server keeps a client that is silent");
                assert!(!net.cs[i].client.is_connected(), "the client keeps a server that is silent");
            }
            _ => {
                // restart: everything sent before is replayed and admits nobody
                history.clear();
                for j in 0..n {
                    net.connect(j);
                }
                pump(s, &mut net, &all, 3, 0);
                let mut log: Vec<(usize, Vec<u8>)> = vec![];
                for &j in &all {
                    net.client_disconnect(j);
                    net.links[j].up.clear();
                    net.links[j].down.clear();
                    while net.cs[j].link.recv.pop().is_some() {}
                }
                pump(s, &mut net, &all, 1, 0);
                for &j in &all {
                    net.connect(j);
                }
                for _ in 0..3 {
                    net.server_tick(1.0);
                    for &j in &all {
                        net.client_tick(j, 1.0);
                        for p in core::mem::take(&mut net.links[j].up) {
                            log.push((j, p.clone()));
                            net.arrive_up(j, p);
                        }
                        for p in core::mem::take(&mut net.links[j].down) {
                            net.cs[j].link.recv.push_raw(lightyear_link::recv_payload_from_bytes(p.into()));
                        }
                    }
                }
                net.reset();
                for _ in 0..2 {
                    for (l, p) in &log {
                        net.arrive_up(*l, p.clone());
                        assert!(net.up.is_empty(), "a reset server admits a client that answered a challenge from before the reset");
                    }
                }
                for l in net.links.iter_mut() {
                    l.down.clear();
                }
                for &j in &all {
                    net.client_disconnect(j);
                    net.links[j].up.clear();
                }
                net.reset();
                for &j in &all {
                    if net.cs[j].client.is_pending() {
                        net.cs[j].client.disconnect().ok().unwrap();
                        net.drain_client(j);
                        net.links[j].up.clear();
                    }
                    while net.cs[j].link.recv.pop().is_some() {}
                }
            }
        }
        history.push(e);
        // and begin it anew
        for j in 0..n {
            if !net.cs[j].client.is_connected() && !net.cs[j].client.is_pending() && s.below(3) > 0 {
                net.connect(j);
            }
        }
        let trying: Vec<usize> = all.iter().copied().filter(|j| net.cs[*j].client.is_pending() || net.cs[*j].client.is_connected()).collect();
        pump(s, &mut net, &all, 6, 0);
        if net.up.len() != trying.len().min(max) { eprintln!("round {round} up {:?} trying {trying:?} max {max} states {:?}", net.up, net.cs.iter().map(|c| c.client.state()).collect::<Vec<_>>()); }
        assert!(net.up.len() == trying.len().min(max), "acceptable clients were kept out although there is room");
    }
}

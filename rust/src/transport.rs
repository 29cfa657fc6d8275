//! T07-T15: transport: acknowledgement headers, channels, fragmentation, packet building.
use crate::util::*;
use crate::{Src, harnesses, natives};
use lightyear_transport::verif::header as vh;

harnesses! { transport;
    // ---- T07 -------------------------------------------------------------
    /// every header survives encode/decode and occupies exactly the advertised 13 bytes
    fn t07_header_codec(s) {
        let h: vh::H = (s.range(0, 4) as u8, s.u16(), s.u16(), s.u32(), s.u32());
        let mut w = Sink::new();
        let n = vh::encode(h, &mut w);
        assert!(n == Some(vh::BYTES) && w.len == vh::BYTES, "header length");
        let mut r = reader_of(w.buf, CAP);
        let got = vh::decode(&mut r);
        assert!(r.position() == vh::BYTES as u64, "header length");
        core::mem::forget(r);
        assert!(got == Some(h), "header round trip");
    }
    /// header decoding is total and rejects truncated input and unknown packet types
    fn t07_header_total(s) {
        let buf = s.bytes::<CAP>();
        let len = s.range(0, 14) as usize;
        let mut k = 0;
        while k < 15 {
            if len == k {
                let mut r = reader_of(buf, k);
                let got = vh::decode(&mut r);
                core::mem::forget(r);
                match got {
                    Some(h) => {
                        assert!(k >= vh::BYTES && buf[0] <= 4 && h.0 == buf[0], "accepted a bad header");
                        assert!(h.1 == u16::from_be_bytes([buf[1], buf[2]]) && h.2 == u16::from_be_bytes([buf[3], buf[4]])
                            && h.3 == u32::from_be_bytes([buf[5], buf[6], buf[7], buf[8]])
                            && h.4 == u32::from_be_bytes([buf[9], buf[10], buf[11], buf[12]]), "header fields");
                    }
                    None => assert!(k < vh::BYTES || buf[0] > 4, "rejected a well-formed header"),
                }
            }
            k += 1;
        }
    }
    /// the set of ids the window acknowledges after receiving `id`: exactly the old ones still inside the window, plus `id`
    fn t07_window(s) {
        let last = s.u16();
        let bits = s.u32();
        let id = s.u16();
        s.assume(id.wrapping_sub(last) != 0x8000); // neither is the newer one
        let mut b = vh::Rb::with(Some(last), bits);
        b.recv(id);
        let (l2, b2) = (b.last(), b.bits());
        core::mem::forget(b);
        let d = id.wrapping_sub(last) as i16;
        let newest = if d > 0 { id } else { last };
        assert!(l2 == Some(newest), "most recent packet id");
        // any id q: acknowledged afterwards iff (acknowledged before or q == id) and inside the new window
        let q = s.u16();
        let back = newest.wrapping_sub(q);
        let old_back = last.wrapping_sub(q);
        let before = q == last || (old_back >= 1 && old_back <= 32 && bits & (1u32 << (old_back - 1)) != 0);
        let after = q == newest || (back >= 1 && back <= 32 && b2 & (1u32 << (back - 1)) != 0);
        let expect = back <= 32 && (before || q == id);
        assert!(after == expect, "acknowledgement window");
    }
    /// the first packet received is acknowledged, and nothing else is
    fn t07_window_first(s) {
        let id = s.u16();
        let mut b = vh::Rb::new();
        assert!(b.last() == None && b.bits() == 0, "fresh window acknowledges something");
        b.recv(id);
        assert!(b.last() == Some(id) && b.bits() == 0, "first packet");
        core::mem::forget(b);
    }
}

#[cfg(not(kani))]
mod nat {
    pub use bytes::Bytes;
    pub use core::time::Duration;
    pub use lightyear_serde::reader::Reader;
    pub use lightyear_transport::prelude::*;
    pub use lightyear_transport::verif::fragments as vf;
    pub use lightyear_transport::verif::{header as vh, message as vm, nack as vn, packet as vp, packet_builder as vb, priority as vpr, receive as vr, send as vs};
    pub use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};

    pub fn ms(n: u64) -> Duration { Duration::from_millis(n) }
    /// content that identifies the message
    pub fn body<S: crate::Src>(s: &mut S, tag: u32, max: usize) -> Bytes {
        let n = s.range(0, max as u64) as usize;
        let mut v = tag.to_le_bytes().to_vec();
        for i in 0..n { v.push((tag as usize * 31 + i * 7 + (i >> 8)) as u8); }
        Bytes::from(v)
    }
    pub fn reliable() -> ReliableSettings { ReliableSettings::default() }
}
#[cfg(not(kani))]
use nat::*;

/// one end of a pair of header managers
#[cfg(not(kani))]
struct End {
    m: vh::Hm,
    sent: HashMap<u64, Duration>,     // ack eliciting packets by absolute number
    next: u64,
    received: HashSet<u64>,           // absolute numbers received from the peer
    recv16: HashSet<u16>,
    newest: Option<u64>,
    by16: HashMap<u16, u64>,
    acked: HashSet<u64>,
    lost: HashSet<u64>,
    pending: bool,
}

natives! {
    /// two peers over a lossy, duplicating, reordering link: only delivered packets are reported acknowledged, once,
    /// with the right rtt sample; acknowledged and lost are disjoint; every packet is classified
    fn t07_ack_protocol(s) {
        let settings = PacketNackSettings {
            rtt_multiplier: 1.5, jitter_multiplier: 1.0,
            minimum_timeout: ms(10), maximum_timeout: ms(3000) };
        let start: u16 = [0u16, 65500, 65535, 32760, 5][s.below(5)];
        let mut ends: Vec<End> = (0..2).map(|_| End { m: vh::Hm::new(settings), sent: HashMap::new(), next: start as u64 + (1 << 20), received: HashSet::new(), recv16: HashSet::new(), newest: None, by16: HashMap::new(), acked: HashSet::new(), lost: HashSet::new(), pending: false }).collect();
        for e in ends.iter_mut() { e.m.set_next(start); }
        let mut now = ms(1000);
        let mut net: Vec<(usize, u64, vh::H)> = Vec::new();
        let steps = 20 + s.below(150);
        let burst = s.coin();
        for _ in 0..steps {
            match s.below(8) {
                0..=2 => {
                    let i = s.below(2);
                    let n = if burst && s.coin() { 1 + s.below(40) } else { 1 };
                    for _ in 0..n {
                    let only = s.below(4) == 0;
                    let h = ends[i].m.preview(if only { 4 } else { s.range(0, 3) as u8 }, 7);
                    let e = &mut ends[i];
                    assert!(h.1 == e.next as u16 && h.4 == 7, "packet ids must be consecutive");
                    // what the header acknowledges was really received
                    for q in 0..40u16 {
                        let claimed = q == 0 || (q <= 32 && h.3 & (1 << (q - 1)) != 0);
                        let id = h.2.wrapping_sub(q);
                        let truth = e.recv16.contains(&id);
                        if claimed { assert!(truth || (e.received.is_empty() && h.2 == u16::MAX && h.3 == 0), "header acknowledges a packet that was never received"); }
                    }
                    if let Some(m) = &e.newest {
                        // everything received among the last 33 is acknowledged
                        assert!(h.2 == *m as u16, "most recent id");
                        for k in 1..=32u64 { assert!((h.3 & (1 << (k - 1)) != 0) == (*m >= k && e.received.contains(&(*m - k))), "bitfield"); }
                    }
                    if only { e.m.commit_ack_only(h.1) } else { e.m.commit(h.1, now); let n = e.next; e.sent.insert(n, now); e.by16.insert(n as u16, n); }
                    e.pending = false;
                    assert!(!e.m.pending(), "a sent packet carries the acknowledgement");
                    let n = e.next;
                    e.next += 1;
                    if s.below(4) != 0 { net.push((i, n, h)); if s.below(6) == 0 { net.push((i, n, h)); } }
                    }
                }
                3..=5 => {
                    if net.is_empty() { continue; }
                    let k = if s.coin() { 0 } else { s.below(net.len()) };
                    let (from, n, h) = net.remove(k);
                    // keep inside the window in which 16 bit ids are unambiguous
                    let e = &mut ends[1 - from];
                    let fresh_claims = {
                        let mut c: Vec<u16> = vec![h.2];
                        for i in 0..32 { if h.3 & (1 << i) != 0 { c.push(h.2.wrapping_sub(1 + i)); } }
                        c
                    };
                    let before: HashMap<u16, Duration> = e.m.outstanding().into_iter().collect();
                    let got = e.m.recv(h, now);
                    e.received.insert(n); e.recv16.insert(n as u16); e.newest = e.newest.max(Some(n));
                    if h.0 != 4 { e.pending = true; }
                    assert!(e.m.pending() == e.pending, "pending acknowledgement flag");
                    let mut seen = HashSet::new();
                    for (id, rtt) in &got {
                        assert!(seen.insert(*id), "acknowledged twice");
                        assert!(fresh_claims.contains(id), "acknowledged a packet the header does not name");
                        let sent = before.get(id).expect("acknowledged a packet that was not outstanding");
                        assert!(*rtt == now.saturating_sub(*sent), "rtt sample");
                    }
                    for c in &fresh_claims { assert!(!before.contains_key(c) || seen.contains(c), "an acknowledgement in the header was ignored"); }
                    let pipeline: Vec<_> = e.m.drain_acked();
                    assert!(pipeline.len() == got.len() && pipeline.iter().zip(&got).all(|(a, b)| a == b), "acknowledgements handed to the channels");
                                        for (id, _) in got {
                        let e = &mut ends[1 - from];
                        let n = *e.by16.get(&id).expect("acknowledged a packet never sent");
                        assert!(e.acked.insert(n) && !e.lost.contains(&n), "acknowledged twice or after being declared lost");
                        assert!(ends[from].received.contains(&n) || (h.2 == u16::MAX && h.3 == 0), "acknowledged a packet the peer never received");
                    }
                }
                6 => now += ms(s.range(0, 40)),
                _ => {
                    let i = s.below(2);
                    let (rtt, jit) = (ms(s.range(0, 100)), ms(s.range(0, 30)));
                    let to = vn::timeout(settings, rtt, jit);
                    let before = ends[i].m.outstanding();
                    let lost = ends[i].m.update(now, rtt, jit);
                    let e = &mut ends[i];
                    for (id, t) in &before {
                        let expect = now.saturating_sub(*t) > to || (e.m.next().wrapping_sub(*id) as i16) > i16::MAX / 3;
                        assert!(lost.contains(id) == expect, "loss classification");
                    }
                    for id in lost {
                        let n = *e.by16.get(&id).expect("lost a packet never sent");
                        assert!(e.lost.insert(n) && !e.acked.contains(&n), "lost twice or after being acknowledged");
                    }
                }
            }
            if s.below(12) == 0 { for e in &ends {
                let mut out: HashSet<u16> = e.sent.keys().filter(|k| !e.acked.contains(k) && !e.lost.contains(k)).map(|k| *k as u16).collect();
                for (o, t) in e.m.outstanding() {
                    assert!(out.remove(&o), "outstanding packet that was already classified");
                    assert!(e.sent.get(&e.by16[&o]) == Some(&t), "send time");
                }
                assert!(out.is_empty(), "a packet was forgotten");
            } }
        }
    }

    // ---- T08 / T09: receive policies ---------------------------------------
    /// reliable ordered: delivers exactly the sent sequence, in order, each once, whatever the arrival order and duplication
    fn t08_reliable_ordered(s) {
        let mut c = vr::Rc::new(ChannelMode::OrderedReliable(reliable()));
        let start = s.u16();
        c.start(start);
        let fs = 8;
        c.fragment_size(fs);
        reliable_schedule(s, c, start, true, fs);
    }
    fn t08_reliable_unordered(s) {
        let mut c = vr::Rc::new(ChannelMode::UnorderedReliable(reliable()));
        let start = s.u16();
        c.start(start);
        let fs = 8;
        c.fragment_size(fs);
        reliable_schedule(s, c, start, false, fs);
    }
    /// sequenced channels: delivered ids strictly increase; the newest completed message is what is delivered
    fn t09_sequenced_reliable(s) { sequenced_schedule(s, true); }
    fn t09_sequenced_unreliable(s) { sequenced_schedule(s, false); }
    /// unordered unreliable: what is delivered is exactly the multiset of complete arrivals, in completion order, without ids
    fn t09_unordered_unreliable(s) {
        let mut c = vr::Rc::new(if s.coin() { ChannelMode::UnorderedUnreliable } else { ChannelMode::UnorderedUnreliableWithAcks });
        let mut expect = VecDeque::new();
        for k in 0..s.below(30) as u32 {
            if s.below(3) > 0 {
                let b = body(s, k, 20);
                let id = if s.coin() { Some(s.u16()) } else { None };
                assert!(c.single(id, k, b.clone()));
                expect.push_back((k, b));
            } else {
                let got = c.read();
                assert!(got == expect.pop_front().map(|(t, b)| (t, b, None)), "unordered unreliable delivery");
            }
        }
        while let Some((t, b)) = expect.pop_front() { assert!(c.read() == Some((t, b, None)), "unordered unreliable delivery"); }
        assert!(c.read().is_none(), "delivered something that was never received");
    }
    /// a message without an id on a channel that needs one is an error and changes nothing
    fn t08_missing_id(s) {
        let modes = [ChannelMode::SequencedUnreliable, ChannelMode::OrderedReliable(reliable()), ChannelMode::UnorderedReliable(reliable()), ChannelMode::SequencedReliable(reliable())];
        let mut c = vr::Rc::new(modes[s.below(4)]);
        assert!(!c.single(None, s.u32(), Bytes::from_static(b"x")), "accepted without id");
        assert!(c.read().is_none(), "delivered");
        assert!(c.single(Some(0), 1, Bytes::from_static(b"y")));
        assert!(c.read() == Some((1, Bytes::from_static(b"y"), Some(0))));
    }

    // ---- T10: fragmentation ------------------------------------------------
    /// cutting: sizes, indices, count, and the concatenation is the message
    fn t10_cut(s) {
        let size = 1 + s.below(40);
        let n = size + 1 + s.below(size * 6);
        let msg = Bytes::from(s.blob(n));
        let id = s.u16();
        let f = vf::send::fragments(size, id, msg.clone());
        assert!(f.len() == n.div_ceil(size), "fragment count");
        let mut cat = vec![];
        for (i, x) in f.iter().enumerate() {
            assert!(x.0 == id && x.1 == i as u64 && x.2 == f.len() as u64, "fragment identity");
            assert!(if i + 1 < f.len() { x.4.len() == size } else { x.4.len() >= 1 && x.4.len() <= size }, "fragment size");
            assert!(x.3.is_some() == (i == 0), "compression tag");
            cat.extend_from_slice(&x.4);
            // codec
            let mut w = Vec::<u8>::new();
            let len = vm::fragment_encode(x, &mut w);
            assert!(len == w.len(), "fragment encoded length");
            let mut r = Reader::from(Bytes::copy_from_slice(&w));
            assert!(vm::fragment_decode(&mut r).as_ref() == Some(x) && !r.has_remaining(), "fragment codec");
        }
        assert!(cat == msg, "fragments do not add up to the message");
    }
    /// reassembly of several interleaved messages, any order, duplicates, stray invalid fragments: exact bytes, once, tick of the first fragment
    fn t10_reassemble(s) {
        let size = 1 + s.below(12);
        let mut r = vf::receive::Fr::new(size);
        let m = 1 + s.below(4);
        let base = s.u16();
        let mut msgs = vec![];
        let mut queue: Vec<(usize, vm::F)> = vec![];
        for k in 0..m {
            let n = size + 1 + s.below(size * 5);
            let msg = Bytes::from(s.blob(n));
            let id = base.wrapping_add(k as u16);
            let fs = vf::send::fragments(size, id, msg.clone());
            for f in &fs { queue.push((k, f.clone())); }
            msgs.push((msg, fs.len(), BTreeSet::new(), None::<u32>, false));
        }
        let extra = s.below(8);
        for _ in 0..extra { let k = s.below(queue.len()); queue.push(queue[k].clone()); }
        let mut tick = 0;
        while !queue.is_empty() {
            let k = s.below(queue.len());
            let (m, f) = queue.swap_remove(k);
            tick += 1;
            if s.below(5) == 0 {
                // a malformed relative must be refused and must not disturb the message
                let mut bad = f.clone();
                let kind = s.below(5);
                match kind {
                    0 => bad.2 = 0,
                    1 => bad.1 = bad.2 + s.range(0, 3),
                    2 => bad.2 += 1,
                    3 => { let mut v = bad.4.to_vec(); v.resize(size + 1, 0); bad.4 = Bytes::from(v); }
                    _ => bad.3 = None,
                }
                let known = msgs[m].2.len() > 0 && !msgs[m].4;
                let applies = match kind { 2 => known, 4 => f.1 == 0 && known, 3 => known, _ => true };
                if applies { assert!(r.recv(&bad, 99999, None).is_err(), "accepted a malformed fragment"); }
            }
            if msgs[m].4 { continue; } // late duplicates are filtered by the channel
            let e = &mut msgs[m];
            let got = r.recv(&f, tick, None).expect("rejected a valid fragment");
            e.3.get_or_insert(tick);
            e.2.insert(f.1);
            if e.2.len() == e.1 {
                assert!(got == Some((e.3.unwrap(), e.0.clone())), "reassembled message differs");
                e.4 = true;
            } else {
                assert!(got.is_none(), "completed early");
            }
        }
        assert!(msgs.iter().all(|e| e.4) && r.in_flight() == 0, "message never completed");
    }
    /// partial messages are dropped exactly when nothing arrived for them since the deadline; reliable ones never
    fn t10_expire(s) {
        let mut r = vf::receive::Fr::new(4);
        let msg = Bytes::from_static(b"0123456789");
        let fs = vf::send::fragments(4, 7, msg.clone());
        let t0 = ms(s.range(1, 100));
        let t1 = t0 + ms(s.range(0, 100));
        let reliable = s.coin();
        let at = |t: Duration| if reliable { None } else { Some(t) };
        assert!(r.recv(&fs[0], 1, at(t0)) == Ok(None));
        assert!(r.recv(&fs[1], 2, at(t1)) == Ok(None));
        let c = ms(s.range(0, 220));
        r.cleanup(c);
        let kept = reliable || t1 > c;
        assert!((r.in_flight() == 1) == kept, "expiry of partial messages");
        let got = r.recv(&fs[2], 3, at(t1));
        assert!(got == Ok(kept.then_some((1, msg))), "after expiry");
    }
    /// arbitrary fragments never panic
    fn t10_hostile(s) {
        let mut r = vf::receive::Fr::new(1 + s.below(6));
        for _ in 0..s.below(20) {
            let n = s.below(9);
            let f: vm::F = (s.range(0, 2) as u16, if s.below(8) == 0 { s.u64() >> s.below(64) } else { s.range(0, 5) }, if s.below(8) == 0 { s.u64() >> s.below(64) } else { s.range(0, 5) }, [None, Some(0), Some(1)][s.below(3)], Bytes::from(s.blob(n)));
            let _ = r.recv(&f, 0, Some(ms(1)));
        }
    }
    /// fragment size: the largest fragment packet fits the mtu, whatever the ids; and no usable size is refused
    fn t10_fragment_size(s) {
        let mtu = s.range(0, 3000) as usize;
        match vp::fragment_size(mtu) {
            None => assert!(mtu < vp::MIN_FRAGMENT_PACKET, "refused a usable mtu"),
            Some(n) => {
                assert!(mtu >= vp::MIN_FRAGMENT_PACKET && n > 0, "accepted an unusable mtu");
                let f: vm::F = (u16::MAX, 0, (1 << 62) - 1, Some(1), Bytes::from(vec![0u8; n]));
                let mut w = Vec::<u8>::new();
                let len = vm::fragment_encode(&f, &mut w);
                // header + widest channel id + widest fragment index (index 0 is encoded in 1 byte here)
                assert!(vp::HEADER + 4 + len + 7 <= mtu, "a fragment packet can exceed the mtu");
                assert!(vp::HEADER + 4 + len + 7 + 2 >= mtu, "wastes the mtu");
            }
        }
    }

    // ---- T11: reliable sender ----------------------------------------------
    fn t11_reliable_sender(s) {
        let factor = [1.5f32, 0.0, 2.0][s.below(3)];
        let set = ReliableSettings { rtt_resend_factor: factor, rtt_resend_min_delay: ms([0u64, 20, 50][s.below(3)]) };
        let mode = [ChannelMode::OrderedReliable(set), ChannelMode::UnorderedReliable(set), ChannelMode::SequencedReliable(set)][s.below(3)];
        let fs = 8;
        let mut c = vs::Sc::new(&ChannelSettings { mode, ..Default::default() }, fs);
        assert!(c.watches(), "reliable channels watch acknowledgements");
        struct M { id: u16, bytes: Bytes, parts: Vec<(bool, Option<Duration>)>, prio: f32, acc: f32 }
        let mut model: Vec<M> = vec![];
        let mut sent = 0u16;
        let mut clock = bevy_time::Time::<bevy_time::Real>::default();
        let mut now = clock.elapsed();
        let mut rtt = Duration::ZERO;
        for _ in 0..3 + s.below(40) {
            match s.below(5) {
                0 => {
                    let b = body(s, sent as u32, 30);
                    let prio = [1.0f32, 2.0][s.below(2)];
                    let id = c.send(b.clone(), prio);
                    assert!(id == Some(sent), "message ids are consecutive");
                    let parts = if b.len() > fs { b.len().div_ceil(fs) } else { 1 };
                    model.push(M { id: sent, bytes: b, parts: vec![(false, None); parts], prio, acc: 0.0 });
                    sent = sent.wrapping_add(1);
                }
                1 => {
                    let d = ms(s.range(1, 40));
                    advance(&mut clock, d);
                    now = clock.elapsed();
                    rtt = ms([0u64, 10, 30][s.below(3)]);
                    c.update(&clock, rtt);
                }
                2 | 3 => {
                    let delay = core::cmp::max(rtt.mul_f32(factor), set.rtt_resend_min_delay);
                    let cands = c.collect();
                    let mut expect: BTreeMap<(u16, u64), (Bytes, f32, bool)> = BTreeMap::new();
                    for m in &mut model {
                        m.acc += m.prio;
                        for (i, (acked, last)) in m.parts.iter().enumerate() {
                            let due = last.is_none_or(|l| delay != Duration::ZERO && now.saturating_sub(l) > delay);
                            if !acked && due {
                                let frag = m.bytes.len() > fs;
                                let b = if frag { m.bytes.slice(i * fs..((i + 1) * fs).min(m.bytes.len())) } else { m.bytes.clone() };
                                expect.insert((m.id, i as u64), (b, m.acc, frag));
                            }
                        }
                    }
                    assert!(cands.len() == expect.len(), "the messages due for (re)sending are exactly the unacknowledged due ones");
                    let mut orders: Vec<(u64, u16)> = vec![];
                    for (k, x) in cands.iter().enumerate() {
                        let ix = x.3.map_or(0, |f| f.0);
                        let e = expect.remove(&(x.2.expect("reliable id"), ix)).expect("sends something not due");
                        assert!(x.4 == e.0 && x.1 == e.1 && x.3.is_some() == e.2, "candidate content");
                        orders.push((x.0, x.2.unwrap()));
                        if s.below(4) > 0 {
                            c.commit(k, now);
                            let m = model.iter_mut().find(|m| Some(m.id) == x.2).unwrap();
                            m.parts[ix as usize].1 = Some(now);
                        }
                    }
                    orders.sort();
                    for w in orders.windows(2) { assert!(w[0].1 <= w[1].1, "send order follows buffering order"); }
                    c.finish(s.range(0, 2) as u8);
                }
                _ => {
                    if sent == 0 { continue; }
                    let id = s.range(0, sent as u64 - 1) as u16;
                    if let Some(p) = model.iter().position(|m| m.id == id) {
                        let frag = model[p].bytes.len() > fs;
                        let i = s.below(model[p].parts.len());
                        let done = c.ack(id, frag.then_some(i as u64));
                        let was = model[p].parts[i].0;
                        model[p].parts[i].0 = true;
                        let all = model[p].parts.iter().all(|x| x.0);
                        assert!(done == (all && !was), "message completion");
                        if all { model.remove(p); }
                    } else {
                        assert!(!c.ack(id, None), "completed twice");
                    }
                    if s.below(3) == 0 { c.nack(id, None); }
                }
            }
        }
    }

    // ---- T12: unreliable sender --------------------------------------------
    fn t12_unreliable_sender(s) {
        let retry = s.coin();
        let mode = [ChannelMode::UnorderedUnreliable, ChannelMode::UnorderedUnreliableWithAcks, ChannelMode::SequencedUnreliable][s.below(3)];
        let fs = 8;
        let mut c = vs::Sc::new(&ChannelSettings { mode, retry_unsent_messages: retry, ..Default::default() }, fs);
        assert!(c.watches() == (mode == ChannelMode::UnorderedUnreliableWithAcks), "watches acks");
        // queue model: (tag order, id, Some((index,count)), bytes, started)
        struct Q { id: Option<u16>, f: Option<(u64, u64)>, b: Bytes, started: bool }
        let (mut singles, mut frags): (Vec<Q>, Vec<Q>) = (vec![], vec![]);
        let mut next = 0u16;
        let mut tag = 0;
        for _ in 0..2 + s.below(14) {
            for _ in 0..s.below(4) {
                let b = body(s, tag, 24);
                tag += 1;
                let id = c.send(b.clone(), 1.0);
                let big = b.len() > fs;
                let has = big || mode != ChannelMode::UnorderedUnreliable;
                assert!(id == has.then_some(next), "ids");
                if big {
                    let n = b.len().div_ceil(fs);
                    for i in 0..n { frags.push(Q { id, f: Some((i as u64, n as u64)), b: b.slice(i * fs..((i + 1) * fs).min(b.len())), started: false }); }
                } else { singles.push(Q { id, f: None, b, started: false }); }
                if has { next = next.wrapping_add(1); }
            }
            let cands = c.collect();
            assert!(cands.len() == singles.len() + frags.len(), "every pending message is a candidate exactly once");
            for (x, q) in cands.iter().zip(singles.iter().chain(frags.iter())) {
                assert!(x.2 == q.id && x.3 == q.f && x.4 == q.b, "candidate content");
            }
            let mut committed = vec![false; cands.len()];
            for k in 0..cands.len() { if s.below(3) > 0 { c.commit(k, ms(0)); committed[k] = true; } }
            let outcome = s.range(0, 2) as u8;
            c.finish(outcome);
            let ns = singles.len();
            let started: HashSet<u16> = frags.iter().enumerate().filter(|(i, _)| committed[ns + i]).map(|(_, q)| q.id.unwrap()).collect();
            for q in frags.iter_mut() { if started.contains(&q.id.unwrap()) { q.started = true; } }
            let discard = !retry && outcome == 1;
            let mut k = 0;
            singles.retain(|_| { k += 1; !committed[k - 1] && !discard });
            let mut k = ns;
            frags.retain(|q| { k += 1; !committed[k - 1] && (!discard || q.started) });
        }
        let cands = c.collect();
        assert!(cands.len() == singles.len() + frags.len(), "a flush must drop exactly the sent (or discarded) messages");
        for (x, q) in cands.iter().zip(singles.iter().chain(frags.iter())) { assert!(x.2 == q.id && x.4 == q.b, "what stays queued"); }
    }
    /// acknowledgement of fragmented unreliable messages: once, when every fragment is acknowledged
    fn t15_fragment_ack(s) {
        let mut a = vf::ack::Fa::new();
        let mut model: HashMap<u16, Vec<bool>> = HashMap::new();
        for _ in 0..s.below(40) {
            let id = s.range(0, 2) as u16;
            match s.below(5) {
                0 => { let n = 1 + s.below(4); if !model.contains_key(&id) { a.add(id, n); model.insert(id, vec![false; n]); } }
                1 => { if s.below(3) == 0 { a.discard(id); model.remove(&id); } }
                _ => {
                    let n = model.get(&id).map_or(4, |v| v.len());
                    let i = s.below(n);
                    let got = a.ack(id, i as u64, None);
                    let done = match model.get_mut(&id) { None => false, Some(v) => { v[i] = true; v.iter().all(|x| *x) } };
                    assert!(got == done, "fragmented message acknowledged");
                    if done { model.remove(&id); }
                }
            }
            for id in 0..3u16 { assert!(a.waiting(id) == model.contains_key(&id), "waiting set"); }
        }
    }

    // ---- T13 / T14: packets ------------------------------------------------
    /// every staged packet fits the mtu, nothing is lost, duplicated or altered, and the receiver parses back what was packed
    fn t13_packets(s) {
        let mtu = [100usize, 300, 1200][s.below(3)];
        let fsz = vp::fragment_size(mtu).unwrap();
        let enabled = s.coin();
        let mut app_reg = ChannelRegistry::default();
        app_reg.add_channel::<ChA>(ChannelSettings { priority: 2.0, ..Default::default() });
        app_reg.add_channel::<ChB>(ChannelSettings { priority: 0.5, ..Default::default() });
        app_reg.add_channel::<ChC>(ChannelSettings::default());
        let prio_of = |n: u16| [2.0f32, 0.5, 1.0][n as usize];
        let mut pb = vb::Pb::new();
        let mut cfg = PriorityConfig::new(1_000_000);
        cfg.enabled = enabled;
        pb.set_priority(cfg);
        let mut cands: Vec<vb::In> = vec![];
        let many = s.below(6) == 0;
        let n = if many { 200 + s.below(500) } else { s.below(40) };
        for i in 0..n {
            let ch = s.range(0, 2) as u16;
            let p = [1.0f32, 3.0, 0.25][s.below(3)];
            if !many && s.below(6) == 0 {
                let len = fsz + 1 + s.below(fsz * 2);
                let msg = Bytes::from(vec![i as u8; len]);
                let id = s.u16();
                for f in vf::send::fragments(fsz, id, msg) { let k = cands.len() as u64; cands.push((ch, Some(id), Some((f.1, f.2)), p, k, f.4)); }
            } else {
                let len = if many { s.below(3) } else if s.coin() { s.below(20) } else { s.below(fsz + 1) };
                let id = if s.coin() { Some(s.u16()) } else { None };
                let k = cands.len() as u64;
                cands.push((ch, id, None, p, k, Bytes::from(vec![i as u8; len])));
            }
        }
        let order = pb.load(&cands, Some(&app_reg));
        // T14: a permutation, by decreasing effective priority
        let mut sorted = order.clone();
        sorted.sort();
        assert!(sorted == (0..cands.len()).collect::<Vec<_>>(), "prioritisation must be a permutation of the candidates");
        let eff = pb.effective();
        if enabled {
            for (k, i) in order.iter().enumerate() { assert!(eff[k] == cands[*i].3 * prio_of(cands[*i].0), "effective priority"); }
            for w in eff.windows(2) { assert!(w[0] >= w[1], "priority order"); }
        }
        let tick = s.u32();
        let (packets, ok) = pb.stage(tick, mtu);
        assert!(ok, "staging failed although every message fits a packet");
        let mut seen = vec![0u32; cands.len()];
        let mut expect_id = 0u16;
        let mut last_prio = f32::INFINITY;
        for (payload, id, meta) in &packets {
            assert!(payload.len() <= mtu, "packet exceeds the mtu");
            assert!(!meta.is_empty(), "empty packet");
            assert!(*id == expect_id, "packet ids consecutive");
            expect_id = expect_id.wrapping_add(1);
            // parse the payload as the receiver does
            let mut r = Reader::from(Bytes::from(payload.clone()));
            let h = vh::decode(&mut r).expect("header");
            assert!(h.1 == *id && h.4 == tick, "packet header");
            let mut parsed = vec![];
            if h.0 == 1 {
                let ch = <u16 as lightyear_serde::ToBytes>::from_bytes(&mut r).unwrap();
                let f = vm::fragment_decode(&mut r).unwrap();
                parsed.push((ch, Some(f.0), Some((f.1, f.2)), f.4));
            }
            while r.has_remaining() {
                let ch = <u16 as lightyear_serde::ToBytes>::from_bytes(&mut r).unwrap();
                let n = <u8 as lightyear_serde::ToBytes>::from_bytes(&mut r).unwrap();
                assert!(n > 0, "empty batch");
                for _ in 0..n { let (id, b) = vm::single_decode(&mut r).unwrap(); parsed.push((ch, id, None, b)); }
            }
            assert!(parsed.len() == meta.len(), "packet content and commit list differ");
            let mut top = f32::NEG_INFINITY;
            for (p, m) in parsed.iter().zip(meta) {
                let c = &cands[m.3];
                seen[m.3] += 1;
                assert!(p.0 == c.0 && p.1 == c.1.or(c.2.map(|_| 0)) && p.2 == c.2 && p.3 == c.5, "message altered in the packet");
                assert!(m.0 == c.0 && m.1 == p.1 && m.2 == c.2.map(|f| f.0), "commit metadata");
                top = top.max(c.3 * prio_of(c.0));
            }
            if enabled { assert!(top <= last_prio, "a later packet holds a higher priority message than everything before it"); last_prio = last_prio.min(top); }
        }
        assert!(seen.iter().all(|x| *x == 1), "every message is packed exactly once");
    }
    /// bandwidth: disabled never limits; enabled admits at most burst + rate * elapsed
    fn t14_bandwidth(s) {
        let off = { let mut c = PriorityConfig::new(100); c.enabled = false; c };
        let mut b = vpr::Bl::new(off);
        for _ in 0..4 { assert!(b.consume(s.range(1, 100000) as usize), "limits although disabled"); }
        // a rate so slow that nothing refills during the test: at most `burst` bytes pass
        let burst = s.range(1, 3000) as u32;
        let mut b = vpr::Bl::new(PriorityConfig::new(1).with_burst_size(burst));
        let t0 = std::time::Instant::now();
        let (mut total, mut refused) = (0u64, false);
        for _ in 0..s.below(30) {
            let n = s.range(1, 400);
            let ok = b.consume(n as usize);
            if ok { total += n } else {
                refused = true;
                assert!(total + n > burst as u64, "refused a packet that fits the quota");
            }
        }
        let _ = refused;
        assert!(total <= burst as u64 + t0.elapsed().as_secs() + 1, "admitted more than the quota");
    }
    fn t20_nack_timeout(s) {
        let lo = ms(s.range(0, 200));
        let hi = lo + ms(s.range(0, 5000));
        let set = PacketNackSettings { rtt_multiplier: [0.0f32, 1.0, 1.5, 2.0][s.below(4)], jitter_multiplier: [0.0f32, 1.0, 4.0][s.below(3)], minimum_timeout: lo, maximum_timeout: hi };
        let (rtt, jit) = (ms(s.range(0, 4000)), ms(s.range(0, 1000)));
        let t = vn::timeout(set, rtt, jit);
        let raw = rtt.mul_f32(set.rtt_multiplier) + jit.mul_f32(set.jitter_multiplier);
        assert!(t == raw.clamp(lo, hi), "loss timeout");
    }
}

#[cfg(not(kani))]
pub struct ChA;
#[cfg(not(kani))]
pub struct ChB;
#[cfg(not(kani))]
pub struct ChC;

#[cfg(not(kani))]
fn advance(t: &mut bevy_time::Time<bevy_time::Real>, d: Duration) {
    t.advance_by(d);
}

#[cfg(not(kani))]
fn parts(fs: usize, id: u16, b: &Bytes) -> Vec<Option<vm::F>> {
    if b.len() > fs { vf::send::fragments(fs, id, b.clone()).into_iter().map(Some).collect() } else { vec![None] }
}

/// sender buffers n messages with consecutive ids from `start`; the network delivers the pieces in any order, repeatedly
#[cfg(not(kani))]
fn reliable_schedule<S: Src>(s: &mut S, mut c: vr::Rc, start: u16, ordered: bool, fs: usize) {
    let n = 1 + s.below(12);
    let msgs: Vec<Bytes> = (0..n).map(|k| body(s, k as u32, 20)).collect();
    let mut pieces: Vec<(usize, Option<vm::F>)> = vec![];
    for (k, m) in msgs.iter().enumerate() { for p in parts(fs, start.wrapping_add(k as u16), m) { pieces.push((k, p)); } }
    let mut undelivered: Vec<usize> = (0..pieces.len()).collect();
    let mut got_parts: Vec<BTreeSet<u64>> = vec![BTreeSet::new(); n];
    let mut completed: Vec<usize> = vec![];
    let mut delivered: Vec<usize> = vec![];
    let mut tick_of: Vec<Option<u32>> = vec![None; n];
    let mut tick = 0u32;
    let mut now = ms(0);
    let need: Vec<usize> = msgs.iter().map(|m| if m.len() > fs { m.len().div_ceil(fs) } else { 1 }).collect();
    let mut guard = 0;
    while delivered.len() < n {
        guard += 1;
        // deliver something (new or a duplicate), or read, or let time pass
        let a = if guard > 400 { 0 } else { s.below(6) };
        match a {
            0..=2 if !undelivered.is_empty() || a == 2 => {
                let p = if !undelivered.is_empty() && (a < 2 || guard > 400) {
                    let k = if guard > 400 { 0 } else { s.below(undelivered.len()) };
                    undelivered.swap_remove(k)
                } else { s.below(pieces.len()) };
                let (k, f) = &pieces[p];
                tick += 1;
                let id = start.wrapping_add(*k as u16);
                let done_before = got_parts[*k].len() == need[*k];
                let ok = match f { None => c.single(Some(id), tick, msgs[*k].clone()), Some(f) => c.fragment(f, tick) };
                assert!(ok, "a valid piece was refused");
                if !done_before {
                    tick_of[*k].get_or_insert(tick);
                    got_parts[*k].insert(f.as_ref().map_or(0, |f| f.1));
                    if got_parts[*k].len() == need[*k] { completed.push(*k); }
                }
                undelivered.retain(|x| *x != p);
            }
            3 => { now += ms(s.range(0, 4000)); c.update(now); }
            _ => {
                let expect = if ordered {
                    let next = delivered.len();
                    completed.contains(&next).then_some(next)
                } else {
                    completed.get(delivered.len()).copied()
                };
                let got = c.read();
                match expect {
                    None => assert!(got.is_none(), "delivered early, twice, or out of order"),
                    Some(k) => {
                        assert!(got == Some((tick_of[k].unwrap(), msgs[k].clone(), Some(start.wrapping_add(k as u16)))), "wrong message delivered");
                        delivered.push(k);
                    }
                }
            }
        }
        assert!(guard < 3000, "a message that fully arrived is never delivered");
    }
    // late duplicates of everything: nothing more is delivered
    for (k, f) in &pieces {
        let id = start.wrapping_add(*k as u16);
        let _ = match f { None => c.single(Some(id), tick, msgs[*k].clone()), Some(f) => c.fragment(f, tick) };
        assert!(c.read().is_none(), "delivered twice");
    }
}

#[cfg(not(kani))]
fn sequenced_schedule<S: Src>(s: &mut S, reliable_mode: bool) {
    let mut c = vr::Rc::new(if reliable_mode { ChannelMode::SequencedReliable(reliable()) } else { ChannelMode::SequencedUnreliable });
    let fs = 8;
    c.fragment_size(fs);
    let start = s.u16();
    let n = 1 + s.below(8);
    let msgs: Vec<Bytes> = (0..n).map(|k| body(s, k as u32, 16)).collect();
    let mut pieces: Vec<(usize, Option<vm::F>)> = vec![];
    for (k, m) in msgs.iter().enumerate() { for p in parts(fs, start.wrapping_add(k as u16), m) { pieces.push((k, p)); } }
    let need: Vec<usize> = msgs.iter().map(|m| if m.len() > fs { m.len().div_ceil(fs) } else { 1 }).collect();
    // model
    let mut newest_seen: Option<usize> = None;
    let mut newest_done: Option<usize> = None;
    let mut ready: Option<usize> = None;
    let mut got: Vec<BTreeSet<u64>> = vec![BTreeSet::new(); n];
    let mut delivered: Vec<usize> = vec![];
    for _ in 0..s.below(50) {
        if s.below(4) == 0 {
            let r = c.read();
            match ready.take() {
                None => assert!(r.is_none(), "delivered a stale or repeated message"),
                Some(k) => {
                    let r = r.expect("the newest message is not delivered");
                    assert!(r.1 == msgs[k] && r.2 == Some(start.wrapping_add(k as u16)), "wrong message");
                    if let Some(l) = delivered.last() { assert!(*l < k, "sequenced delivery went backwards or repeated"); }
                    delivered.push(k);
                }
            }
        } else {
            let (k, f) = &pieces[s.below(pieces.len())];
            let id = start.wrapping_add(*k as u16);
            let ok = match f { None => c.single(Some(id), 0, msgs[*k].clone()), Some(f) => c.fragment(f, 0) };
            assert!(ok);
            if newest_seen.is_some_and(|x| *k < x) || newest_done == Some(*k) { continue; }
            if newest_seen != Some(*k) { newest_seen = Some(*k); ready = None; }
            got[*k].insert(f.as_ref().map_or(0, |f| f.1));
            if got[*k].len() == need[*k] { newest_done = Some(*k); ready = Some(*k); }
        }
    }
}

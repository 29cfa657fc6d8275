impl PacketHeaderManager {
    pub open spec fn sent(self) -> Map<PacketId, Duration> { self.sent_packets_not_acked@ }
    pub open spec fn acked(self) -> Map<PacketId, Duration> { self.newly_acked_packets@ }
    pub open spec fn scratch(self) -> Seq<(PacketId, Duration)> { self.newly_acked_packet_scratch@ }
    /// everything that does not belong to acknowledgement processing is untouched
    pub open spec fn same_send(self, o: PacketHeaderManager) -> bool { self.next_packet_id == o.next_packet_id && self.lost_packets == o.lost_packets && self.nack_settings == o.nack_settings }
    /// only statistics changed
    pub open spec fn same_recv(self, o: PacketHeaderManager) -> bool { self.recv_buffer == o.recv_buffer && self.ack_pending == o.ack_pending }
    /// all identifiers of `done` were outstanding at `o`, are no longer so now, and are reported, each once
    pub open spec fn moved(self, o: PacketHeaderManager, done: spec_fn(PacketId) -> bool, now: Duration) -> bool {
        &&& forall|p: PacketId| #[trigger] self.sent().dom().contains(p) <==> o.sent().dom().contains(p) && !done(p)
        &&& forall|p: PacketId| #[trigger] self.sent().dom().contains(p) ==> self.sent()[p] == o.sent()[p]
        &&& forall|p: PacketId| #[trigger] self.acked().dom().contains(p) <==> o.acked().dom().contains(p) || (o.sent().dom().contains(p) && done(p))
        &&& forall|p: PacketId| #[trigger] self.acked().dom().contains(p) ==> self.acked()[p] == (if o.sent().dom().contains(p) && done(p) { since(now, o.sent()[p]) } else { o.acked()[p] })
        &&& forall|i: int| 0 <= i < self.scratch().len() ==> { let e = #[trigger] self.scratch()[i]; o.sent().dom().contains(e.0) && done(e.0) && e.1 == since(now, o.sent()[e.0]) }
        &&& forall|i: int, j: int| 0 <= i < j < self.scratch().len() ==> (#[trigger] self.scratch()[i]).0 != (#[trigger] self.scratch()[j]).0
        &&& forall|p: PacketId| o.sent().dom().contains(p) && #[trigger] done(p) ==> exists|i: int| 0 <= i < self.scratch().len() && (#[trigger] self.scratch()[i]).0 == p
    }
    /// one more identifier `q` looked at
    pub proof fn one_more(o: PacketHeaderManager, a: PacketHeaderManager, b: PacketHeaderManager, d: spec_fn(PacketId) -> bool, e: spec_fn(PacketId) -> bool, q: PacketId, now: Duration)
        requires a.moved(o, d, now), !d(q), forall|p: PacketId| p != q ==> (#[trigger] e(p) <==> d(p)),
            e(q) && o.sent().dom().contains(q) ==> b.sent() == a.sent().remove(q) && b.acked() == a.acked().insert(q, since(now, a.sent()[q])) && b.scratch() == a.scratch().push((q, since(now, a.sent()[q]))),
            !(e(q) && o.sent().dom().contains(q)) ==> b.sent() =~= a.sent() && b.acked() == a.acked() && b.scratch() == a.scratch(),
        ensures b.moved(o, e, now)
    {
        let hit = e(q) && o.sent().dom().contains(q);
        assert(a.sent().dom().contains(q) <==> o.sent().dom().contains(q));
        assert forall|p: PacketId| o.sent().dom().contains(p) && #[trigger] e(p) implies exists|i: int| 0 <= i < b.scratch().len() && (#[trigger] b.scratch()[i]).0 == p by {
            if p == q { assert(b.scratch()[a.scratch().len() as int].0 == q); }
            else { assert(d(p)); let i = choose|i: int| 0 <= i < a.scratch().len() && (#[trigger] a.scratch()[i]).0 == p; assert(b.scratch()[i].0 == p); }
        }
        assert forall|i: int| 0 <= i < b.scratch().len() implies { let x = #[trigger] b.scratch()[i]; o.sent().dom().contains(x.0) && e(x.0) && x.1 == since(now, o.sent()[x.0]) } by {
            if i < a.scratch().len() { assert(b.scratch()[i] == a.scratch()[i]); assert(d(a.scratch()[i].0)); }
        }
        assert forall|i: int, j: int| 0 <= i < j < b.scratch().len() implies (#[trigger] b.scratch()[i]).0 != (#[trigger] b.scratch()[j]).0 by {
            assert(b.scratch()[i] == a.scratch()[i]); assert(d(a.scratch()[i].0));
            if j < a.scratch().len() { assert(b.scratch()[j] == a.scratch()[j]); }
        }
    }
//@@ fn PacketHeaderManager::update_sent_packets_not_acked
//@@ spec:
//@@ | ensures final(self).same_send(*old(self)), final(self).same_recv(*old(self)), final(self).newly_acked_packets == old(self).newly_acked_packets, final(self).newly_acked_packet_scratch == old(self).newly_acked_packet_scratch,
//@@ |   final(self).sent() =~= old(self).sent().remove(*packet_id),
//@@ |   r == (if old(self).sent().dom().contains(*packet_id) { Some((*packet_id, old(self).sent()[*packet_id])) } else { None })
//@@ end
//@@ fn PacketHeaderManager::record_newly_acked_packet
//@@ rename: real : Duration => vx_now: Duration ;; real . saturating_sub => vx_now.saturating_sub
//@@ spec:
//@@ | ensures final(self).same_send(*old(self)), final(self).same_recv(*old(self)), final(self).sent_packets_not_acked == old(self).sent_packets_not_acked,
//@@ |   final(self).acked() == old(self).acked().insert(packet, since(vx_now, time_sent)),
//@@ |   final(self).scratch() == old(self).scratch().push((packet, since(vx_now, time_sent)))
//@@ end
//@@ fn PacketHeaderManager::process_recv_packet_header
//@@ rename: real : Duration => vx_now: Duration ;; , real , => , vx_now, ;; self . ack_pending |= => self.ack_pending = self.ack_pending || ;; header . last_ack_packet_id . wrapping_sub => header.last_ack_packet_id.0.wrapping_sub ;; & self . newly_acked_packet_scratch => self.newly_acked_packet_scratch.as_slice()
//@@ iter 0: it
//@@ spec:
//@@ | requires old(self).recv_buffer.wf()
//@@ | ensures final(self).same_send(*old(self)), final(self).recv_buffer.wf(),
//@@ |   // exactly the outstanding packets this header acknowledges are reported, each once, and are no longer outstanding
//@@ |   final(self).moved(*old(self), |p: PacketId| header.acks(p), vx_now), r@ == final(self).scratch(),
//@@ |   // the packet itself is recorded as received
//@@ |   forall|p: PacketId| #[trigger] final(self).recv_buffer.covers(p) <==> (fwd(p, final(self).recv_buffer.last_recv_packet_id->0) <= 32 && (p == header.packet_id || old(self).recv_buffer.covers(p))),
//@@ |   final(self).recv_buffer.last_recv_packet_id is Some,
//@@ |   old(self).recv_buffer.last_recv_packet_id matches Some(l) ==> final(self).recv_buffer.last_recv_packet_id == Some(if diff(l.0, header.packet_id.0) > 0 || diff(header.packet_id.0, l.0) == -32768 { header.packet_id } else { l }),
//@@ |   final(self).ack_pending == (old(self).ack_pending || header.packet_type != PacketType::AckOnly)
//@@ loopkinds: for
//@@ start: let ghost la = header.last_ack_packet_id; 
//@@ after "self\.newly_acked_packet_scratch\.clear": let ghost b0 = *self; let ghost d0 = |p: PacketId| false; proof { assert(b0.moved(*old(self), d0, vx_now)); }
//@@ before "for ": let ghost s0 = *self; proof { Self::one_more(*old(self), b0, s0, d0, |p: PacketId| p == la, la, vx_now); }
//@@ loop 0:
//@@ |   invariant self.same_send(*old(self)), self.same_recv(s0), la == header.last_ack_packet_id,
//@@ |     self.moved(*old(self), |p: PacketId| header.acked_to(p, it.index@), vx_now)
//@@ before "for ": proof { Self::one_more(*old(self), b0, s0, d0, |p: PacketId| header.acked_to(p, 0), la, vx_now); }
//@@ loopbody 0: let ghost sa = *self; let ghost k = it.index@; let ghost q = PacketId(((la.0 - k - 1) % 65536) as u16);
//@@ loopend 0: proof { assert(packet_id == q); Self::one_more(*old(self), sa, *self, |p: PacketId| header.acked_to(p, k), |p: PacketId| header.acked_to(p, k + 1), q, vx_now); }
//@@ after "for ": proof { let d1 = |p: PacketId| header.acked_to(p, 32); let d2 = |p: PacketId| header.acks(p); assert(self.moved(*old(self), d1, vx_now)); assert forall|p: PacketId| #[trigger] d1(p) == d2(p) by {} assert(d1 =~= d2); }
//@@ end
}
pub open spec fn too_old(next: PacketId, p: PacketId) -> bool { diff(p.0, next.0) > 10922 }
impl PacketHeaderManager {
    /// the outstanding packet `p` sent at `t` is to be given up at time `now`
    pub open spec fn expired(self, p: PacketId, t: Duration, now: Duration, timeout: Duration) -> bool { since(now, t).0 > timeout.0 || too_old(self.next_packet_id, p) }
    pub open spec fn same_but_lost(self, o: PacketHeaderManager) -> bool {
        self.next_packet_id == o.next_packet_id && self.newly_acked_packets == o.newly_acked_packets && self.newly_acked_packet_scratch == o.newly_acked_packet_scratch && self.same_recv(o) && self.nack_settings == o.nack_settings
    }
//@@ closure PacketHeaderManager::update retain
//@@ sig: fn vx_keep(&mut self, $0: &PacketId, $1: &mut Duration, vx_now: Duration, nack_duration: Duration) -> bool
//@@ rename: real . saturating_sub => vx_now.saturating_sub
//@@ spec:
//@@ | ensures final(self).same_but_lost(*old(self)), final(self).sent_packets_not_acked == old(self).sent_packets_not_acked, *final(time_sent) == *old(time_sent),
//@@ |   r == !old(self).expired(*packet_id, *old(time_sent), vx_now, nack_duration),
//@@ |   final(self).lost_packets@ == (if r { old(self).lost_packets@ } else { old(self).lost_packets@.push(*packet_id) })
//@@ end
    /// IndexMap::retain: every entry is shown to the closure once; those for which it answers false are removed
    fn vx_retain(&mut self, vx_now: Duration, nack_duration: Duration)
        ensures final(self).same_but_lost(*old(self)), final(self).gave_up(*old(self), vx_now, nack_duration)
    {
        let es = self.sent_packets_not_acked.vx_entries();
        let mut i = 0;
        let ghost o = *self;
        while i < es.len()
            invariant 0 <= i <= es.len(), self.same_but_lost(o), o == *old(self),
                forall|a: int, b: int| 0 <= a < b < es@.len() ==> (#[trigger] es@[a]).0 != (#[trigger] es@[b]).0,
                forall|a: int| 0 <= a < es@.len() ==> o.sent().dom().contains((#[trigger] es@[a]).0) && o.sent()[es@[a].0] == es@[a].1,
                forall|a: int| 0 <= a < i ==> (self.sent().dom().contains((#[trigger] es@[a]).0) <==> !o.expired(es@[a].0, es@[a].1, vx_now, nack_duration)),
                forall|a: int| i <= a < es@.len() ==> self.sent().dom().contains((#[trigger] es@[a]).0),
                forall|p: PacketId| #[trigger] self.sent().dom().contains(p) ==> o.sent().dom().contains(p) && self.sent()[p] == o.sent()[p],
                self.lost_packets@.len() >= o.lost_packets@.len(), self.lost_packets@.take(o.lost_packets@.len() as int) == o.lost_packets@,
                forall|a: int| o.lost_packets@.len() <= a < self.lost_packets@.len() ==> o.sent().dom().contains(#[trigger] self.lost_packets@[a]) && !self.sent().dom().contains(self.lost_packets@[a]),
                forall|a: int, b: int| o.lost_packets@.len() <= a < b < self.lost_packets@.len() ==> #[trigger] self.lost_packets@[a] != #[trigger] self.lost_packets@[b],
                forall|a: int| 0 <= a < i && !self.sent().dom().contains((#[trigger] es@[a]).0) ==> exists|b: int| o.lost_packets@.len() <= b < self.lost_packets@.len() && #[trigger] self.lost_packets@[b] == es@[a].0,
            decreases es.len() - i
        {
            let ghost s0 = *self;
            let e = es[i].0;
            let mut t = es[i].1;
            assert(e == es@[i as int].0);
            if !self.vx_keep(&e, &mut t, vx_now, nack_duration) {
                self.sent_packets_not_acked.swap_remove(&e);
                proof {
                    let n = s0.lost_packets@.len() as int;
                    assert(self.lost_packets@[n] == e);
                    assert forall|a: int| 0 <= a < i + 1 && !self.sent().dom().contains((#[trigger] es@[a]).0) implies exists|b: int| o.lost_packets@.len() <= b < self.lost_packets@.len() && #[trigger] self.lost_packets@[b] == es@[a].0 by {
                        if a < i { let b = choose|b: int| o.lost_packets@.len() <= b < s0.lost_packets@.len() && #[trigger] s0.lost_packets@[b] == es@[a].0; assert(self.lost_packets@[b] == es@[a].0); }
                    }
                    assert(self.lost_packets@.take(o.lost_packets@.len() as int) =~= o.lost_packets@);
                }
            }
            i += 1;
        }
        proof {
            let n = o.lost_packets@.len() as int;
            assert forall|p: PacketId| #[trigger] self.sent().dom().contains(p) implies o.sent().dom().contains(p) && !o.expired(p, o.sent()[p], vx_now, nack_duration) by {
                let a = choose|a: int| 0 <= a < es@.len() && (#[trigger] es@[a]).0 == p;
            }
            assert forall|p: PacketId| #[trigger] o.sent().dom().contains(p) && !self.sent().dom().contains(p) implies o.expired(p, o.sent()[p], vx_now, nack_duration) && exists|b: int| n <= b < self.lost_packets@.len() && #[trigger] self.lost_packets@[b] == p by {
                let a = choose|a: int| 0 <= a < es@.len() && (#[trigger] es@[a]).0 == p;
                assert(es@[a].0 == p);
            }
        }
    }
    /// exactly the expired packets are given up: reported lost once each and no longer outstanding
    pub open spec fn gave_up(self, o: PacketHeaderManager, now: Duration, timeout: Duration) -> bool {
        let n = o.lost_packets@.len() as int;
        &&& forall|p: PacketId| #[trigger] self.sent().dom().contains(p) <==> o.sent().dom().contains(p) && !o.expired(p, o.sent()[p], now, timeout)
        &&& forall|p: PacketId| #[trigger] self.sent().dom().contains(p) ==> self.sent()[p] == o.sent()[p]
        &&& self.lost_packets@.len() >= n && self.lost_packets@.take(n) == o.lost_packets@
        &&& forall|a: int| n <= a < self.lost_packets@.len() ==> o.sent().dom().contains(#[trigger] self.lost_packets@[a]) && o.expired(self.lost_packets@[a], o.sent()[self.lost_packets@[a]], now, timeout)
        &&& forall|a: int, b: int| n <= a < b < self.lost_packets@.len() ==> #[trigger] self.lost_packets@[a] != #[trigger] self.lost_packets@[b]
        &&& forall|p: PacketId| #[trigger] o.sent().dom().contains(p) && !self.sent().dom().contains(p) ==> exists|b: int| n <= b < self.lost_packets@.len() && #[trigger] self.lost_packets@[b] == p
    }
//@@ fn PacketHeaderManager::update
//@@ rename: real : Duration => vx_now: Duration ;; ( real ) => (vx_now) ;; ( real , => (vx_now,
//@@ hoist: retain over self.sent_packets_not_acked => self.vx_retain(vx_now, nack_duration)
//@@ spec:
//@@ | ensures final(self).same_but_lost(*old(self)), final(self).gave_up(*old(self), vx_now, loss_timeout(old(self).nack_settings, *link_stats))
//@@ end
//@@ fn PacketHeaderManager::preview_send_packet_header
//@@ spec:
//@@ | requires self.recv_buffer.wf()
//@@ | ensures r.packet_type == packet_type, r.packet_id == self.next_packet_id, r.tick == tick,
//@@ |   // the header acknowledges exactly what is recorded as received (65535 stands for "nothing yet")
//@@ |   self.recv_buffer.last_recv_packet_id is Some ==> forall|p: PacketId| #[trigger] r.acks(p) == self.recv_buffer.covers(p),
//@@ |   self.recv_buffer.last_recv_packet_id is None ==> forall|p: PacketId| #[trigger] r.acks(p) ==> p.0 == 65535
//@@ end
//@@ fn PacketHeaderManager::commit_send_packet
//@@ rename: real : Duration => vx_now: Duration ;; , real ) => , vx_now)
//@@ spec:
//@@ | requires packet_id == old(self).next_packet_id
//@@ | ensures final(self).sent() == old(self).sent().insert(packet_id, vx_now), final(self).next_packet_id.0 == (packet_id.0 + 1) % 65536, !final(self).ack_pending,
//@@ |   final(self).recv_buffer == old(self).recv_buffer, final(self).newly_acked_packets == old(self).newly_acked_packets, final(self).lost_packets == old(self).lost_packets, final(self).nack_settings == old(self).nack_settings
//@@ end
//@@ fn PacketHeaderManager::commit_send_ack_only
//@@ spec:
//@@ | requires packet_id == old(self).next_packet_id
//@@ | ensures final(self).sent_packets_not_acked == old(self).sent_packets_not_acked, final(self).next_packet_id.0 == (packet_id.0 + 1) % 65536, !final(self).ack_pending,
//@@ |   final(self).recv_buffer == old(self).recv_buffer, final(self).newly_acked_packets == old(self).newly_acked_packets, final(self).lost_packets == old(self).lost_packets, final(self).nack_settings == old(self).nack_settings
//@@ end
//@@ fn PacketHeaderManager::has_pending_ack
//@@ spec: ensures r == self.ack_pending
//@@ end
}
/// one packet received, as promised by recv_packet's contract
pub open spec fn step(a: ReceiveBuffer, id: PacketId, b: ReceiveBuffer) -> bool {
    b.last_recv_packet_id is Some && forall|p: PacketId| #[trigger] b.covers(p) <==> (fwd(p, b.last_recv_packet_id->0) <= 32 && (p == id || a.covers(p)))
}
pub open spec fn history(bs: Seq<ReceiveBuffer>, ids: Seq<PacketId>) -> bool {
    bs.len() == ids.len() + 1 && (forall|p: PacketId| !#[trigger] bs[0].covers(p)) && forall|i: int| 0 <= i < ids.len() ==> step(#[trigger] bs[i], ids[i], bs[i + 1])
}
/// whatever arrives in whatever order, nothing is recorded (hence nothing acknowledged) that did not arrive
pub proof fn only_received(bs: Seq<ReceiveBuffer>, ids: Seq<PacketId>, n: int, p: PacketId)
    requires history(bs, ids), 0 <= n <= ids.len(), bs[n].covers(p)
    ensures exists|i: int| 0 <= i < n && #[trigger] ids[i] == p
    decreases n
{
    if n > 0 {
        assert(step(bs[n - 1], ids[n - 1], bs[n]));
        if ids[n - 1] != p { only_received(bs, ids, n - 1, p); }
    }
}
/// and what arrived stays recorded as long as it is among the 32 before the newest
pub proof fn stays_recorded(bs: Seq<ReceiveBuffer>, ids: Seq<PacketId>, i: int, n: int)
    requires history(bs, ids), 0 <= i < n <= ids.len(), forall|j: int| i < j <= n ==> fwd(ids[i], (#[trigger] bs[j]).last_recv_packet_id->0) <= 32
    ensures bs[n].covers(ids[i])
    decreases n
{
    assert(step(bs[n - 1], ids[n - 1], bs[n]));
    assert(fwd(ids[i], bs[n].last_recv_packet_id->0) <= 32);
    if i < n - 1 { stays_recorded(bs, ids, i, n - 1); }
}

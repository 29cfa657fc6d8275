// V1: the receiving half of a channel (T08, T09).  Real code: crates/transport/transport/src/channel/receive.rs
#![allow(inconsistent_fields)]
use vstd::prelude::*;
use core::cmp::Ordering;
use std::collections::VecDeque;
verus! {
//@@ include maps.inc
//@@ include msgid.inc
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Tick(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Duration(pub u64);
impl Duration {
    #[verifier::external_body]
    pub fn saturating_sub(self, rhs: Duration) -> (r: Duration) ensures r.0 == (if self.0 >= rhs.0 { self.0 - rhs.0 } else { 0 }) { unimplemented!() }
}
#[verifier::external_body]
pub struct Bytes { b: Vec<u8> }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct ChannelKind { x: u64 }
#[derive(Clone, Copy)]
pub struct CompressionConfig { pub x: u64 }
pub const DISCARD_AFTER: Duration = Duration(3000);
pub struct FragmentData { pub message_id: MessageId, pub bytes: Bytes }

//@@ source crates/transport/transport/src/packet/message.rs
//@@ item struct SingleData
//@@ item enum MessageData
//@@ item struct ReceiveMessage
pub open spec fn data_id(d: MessageData) -> Option<MessageId> { match d { MessageData::Single(s) => s.id, MessageData::Fragment(f) => Some(f.message_id) } }
impl MessageData {
//@@ fn MessageData::message_id
//@@ spec: ensures r == data_id(*self)
//@@ end
}
//@@ source crates/transport/transport/src/channel/receive.rs
//@@ item enum ChannelReceiveError
type Result<T> = core::result::Result<T, ChannelReceiveError>;
//@@ item type ReceivedMessage
//@@ item struct ChannelReceive
//@@ item enum RecvState

/// The reassembly table, whose own contract is decided by unit V2 (T10): here it may answer anything about which bytes
/// complete, as long as a completed message is one the sender sent with that id (`genuine`).
#[verifier::external_body]
pub struct FragmentReceiver { x: u64 }
pub uninterp spec fn genuine(f: FragmentData, b: Bytes) -> bool;
impl FragmentReceiver {
    #[verifier::external_body]
    pub fn cleanup(&mut self, t: Duration) { unimplemented!() }
    #[verifier::external_body]
    pub fn receive_fragment(&mut self, fragment: FragmentData, remote_sent_tick: Tick, current_time: Option<Duration>, compression: CompressionConfig) -> (r: Result<Option<(Tick, Bytes)>>)
        ensures r matches Ok(Some((t, b))) ==> genuine(fragment, b)
    { unimplemented!() }
}

/// abstract state of the delivery policy
pub ghost enum AS {
    UnordUnrel(Seq<ReceivedMessage>),
    Ordered(MessageId, Map<MessageId, ReceivedMessage>),
    Unordered(MessageId, Seq<(MessageId, Tick, Bytes)>, Set<MessageId>),
    /// (reliable, ready, newest_seen, newest_completed)
    Seqd(bool, Option<(Tick, Bytes, MessageId)>, Option<MessageId>, Option<MessageId>),
}
impl View for RecvState {
    type V = AS;
    open spec fn view(&self) -> AS {
        match *self {
            RecvState::UnreliableUnordered { ready } => AS::UnordUnrel(ready@),
            RecvState::ReliableOrdered { pending, ready } => AS::Ordered(pending, ready@),
            RecvState::ReliableUnordered { pending, ready, received } => AS::Unordered(pending, ready@, received@),
            RecvState::UnreliableSequenced { ready, newest_seen, newest_completed } => AS::Seqd(false, ready, newest_seen, newest_completed),
            RecvState::ReliableSequenced { ready, newest_seen, newest_completed } => AS::Seqd(true, ready, newest_seen, newest_completed),
        }
    }
}
pub open spec fn newer_than_seen(id: MessageId, seen: Option<MessageId>) -> bool { seen is None || (id != seen->Some_0 && !older(id, seen->Some_0)) }
impl AS {
    pub open spec fn needs_id(self) -> bool { !(self is UnordUnrel) }
    pub open spec fn expires(self) -> bool { self is UnordUnrel || (self matches AS::Seqd(rel, _, _, _) && !rel) }
    /// is a message with this id still of interest?
    pub open spec fn admits(self, oid: Option<MessageId>) -> bool {
        match self {
            AS::UnordUnrel(_) => true,
            // reliable: refuse exactly what lies before the window or is already held
            AS::Ordered(p, m) => fwd(p, oid->Some_0) < 32768 && !m.dom().contains(oid->Some_0),
            AS::Unordered(p, q, s) => fwd(p, oid->Some_0) < 32768 && !s.contains(oid->Some_0),
            // sequenced: refuse what is older than the newest seen (and, if reliable, what was completed already)
            AS::Seqd(rel, ready, seen, comp) => !(seen matches Some(n) && older(oid->Some_0, n)) && !(rel && comp == oid),
        }
    }
    /// what admission does: only a sequenced channel moves, to the newer id, forgetting the unread older message
    pub open spec fn prepared(self, oid: Option<MessageId>) -> AS {
        match self {
            AS::Seqd(rel, ready, seen, comp) if newer_than_seen(oid->Some_0, seen) => AS::Seqd(rel, if seen is None { ready } else { None }, oid, comp),
            _ => self,
        }
    }
    pub open spec fn pushed(self, oid: Option<MessageId>, t: Tick, b: Bytes) -> AS {
        match self {
            AS::UnordUnrel(q) => AS::UnordUnrel(q.push((t, b))),
            AS::Ordered(p, m) => AS::Ordered(p, m.insert(oid->Some_0, (t, b))),
            AS::Unordered(p, q, s) => AS::Unordered(p, q.push((oid->Some_0, t, b)), s.insert(oid->Some_0)),
            AS::Seqd(rel, ready, seen, comp) =>
                if comp == oid || (seen matches Some(n) && older(oid->Some_0, n)) { self } else { AS::Seqd(rel, Some((t, b, oid->Some_0)), seen, oid) },
        }
    }
    /// reading takes exactly the next message, if there is one
    pub open spec fn read_to(self, out: Option<(Tick, Bytes, Option<MessageId>)>, post: AS) -> bool {
        match self {
            AS::UnordUnrel(q) => if q.len() > 0 { out == Some((q[0].0, q[0].1, None::<MessageId>)) && post == AS::UnordUnrel(q.drop_first()) } else { out is None && post == self },
            AS::Ordered(p, m) => if m.dom().contains(p) { out == Some((m[p].0, m[p].1, Some(p))) && post == AS::Ordered(nth(p, 1), m.remove(p)) } else { out is None && post == self },
            AS::Unordered(p, q, s) => if q.len() > 0 {
                    &&& out == Some((q[0].1, q[0].2, Some(q[0].0)))
                    &&& post matches AS::Unordered(p2, q2, s2) && q2 == q.drop_first() && if q[0].0 == p { slid(p, s, p2, s2) } else { p2 == p && s2 == s }
                } else { out is None && post == self },
            AS::Seqd(rel, ready, seen, comp) => post == AS::Seqd(rel, None, seen, comp) && out == (match ready { Some((t, b, i)) => Some((t, b, Some(i))), None => None }),
        }
    }
}
impl RecvState {
//@@ fn RecvState::expires_fragments
//@@ spec: ensures r == self@.expires()
//@@ end
//@@ fn RecvState::prepare_receive
//@@ spec:
//@@ | ensures
//@@ |   old(self)@.needs_id() && message_id is None ==> r is Err && *final(self) == *old(self),
//@@ |   !(old(self)@.needs_id() && message_id is None) ==> r == Ok::<bool, ChannelReceiveError>(old(self)@.admits(message_id)) &&
//@@ |       final(self)@ == (if old(self)@.admits(message_id) { old(self)@.prepared(message_id) } else { old(self)@ }),
//@@ before "Ok\(true\)$": assert(has_resolved(ready));
//@@ end
//@@ fn RecvState::push_completed
//@@ closures: is_some_and
//@@ rename: newest_seen . is_some_and => (*newest_seen) . is_some_and
//@@ spec:
//@@ | requires old(self)@.needs_id() ==> message_id is Some,
//@@ | ensures final(self)@ == old(self)@.pushed(message_id, tick, bytes)
//@@ end
//@@ fn RecvState::read_message
//@@ closures: map
//@@ loopkinds: while
//@@ spec: ensures old(self)@.read_to(r, final(self)@)
//@@ start: let ghost s0 = self@->Unordered_2; let ghost p0 = self@->Unordered_0; let ghost mut k: int = 0;
//@@ loop 0:
//@@ |   invariant
//@@ |     0 <= k <= s0.len(), pending.0 == (p0.0 + k) % 65536,
//@@ |     removed(p0, s0, k, received@), prefix_in(p0, s0, k), received@.len() + k == s0.len(),
//@@ |   ensures !received@.contains(*pending),
//@@ |   decreases received@.len()
//@@ loopbody 0: proof { assert(s0.contains(nth(p0, k))); k = k + 1; broadcast use vstd::set::group_set_lemmas; }
//@@ afterloop 0: proof { assert(slid_by(p0, s0, *pending, received@, k)); }
//@@ end
}
impl ChannelReceive {
//@@ fn ChannelReceive::update
//@@ spec: ensures final(self).state == old(self).state, final(self).current_time == now
//@@ end
//@@ fn ChannelReceive::buffer_recv
//@@ closures: then_some
//@@ spec:
//@@ | ensures ({
//@@ |   let pre = old(self).state@; let post = final(self).state@; let oid = data_id(message.data);
//@@ |   if pre.needs_id() && oid is None { r is Err && post == pre }
//@@ |   else if !pre.admits(oid) { r is Ok && post == pre }
//@@ |   else { match message.data {
//@@ |       MessageData::Single(x) => r is Ok && post == pre.prepared(oid).pushed(oid, message.remote_sent_tick, x.bytes),
//@@ |       // a fragment completes the message with bytes the sender sent, or changes no stored message
//@@ |       MessageData::Fragment(f) => post == pre.prepared(oid) || exists|t: Tick, b: Bytes| genuine(f, b) && post == #[trigger] pre.prepared(oid).pushed(oid, t, b),
//@@ |   } } })
//@@ end
//@@ fn ChannelReceive::read_message
//@@ spec: ensures old(self).state@.read_to(r, final(self).state@)
//@@ end
}
pub open spec fn nth(p: MessageId, k: int) -> MessageId { MessageId(((p.0 + k) % 65536) as u16) }
pub open spec fn prefix_in(p: MessageId, s: Set<MessageId>, k: int) -> bool { forall|j: int| 0 <= j < k ==> s.contains(#[trigger] nth(p, j)) }
pub open spec fn removed(p: MessageId, s: Set<MessageId>, k: int, s2: Set<MessageId>) -> bool {
    forall|i: MessageId| #[trigger] s2.contains(i) <==> s.contains(i) && !(exists|j: int| 0 <= j < k && i == #[trigger] nth(p, j))
}
/// the window moved over k received ids, which are exactly the ones forgotten, and stands at one not received
pub open spec fn slid_by(p: MessageId, s: Set<MessageId>, p2: MessageId, s2: Set<MessageId>, k: int) -> bool {
    &&& 0 <= k <= s.len()
    &&& p2 == nth(p, k)
    &&& prefix_in(p, s, k)
    &&& removed(p, s, k, s2)
    &&& !s2.contains(p2)
}
pub open spec fn slid(p: MessageId, s: Set<MessageId>, p2: MessageId, s2: Set<MessageId>) -> bool { exists|k: int| slid_by(p, s, p2, s2, k) }

// ------------------------------------------------------------------------------------------------------------------
// Whole histories.  Messages carry absolute numbers 0,1,2,.. (the sender's n-th message has id n mod 65536 and bytes
// sent(n)); the only assumption on the network is that a message still under way is less than half the id space away
// from the receiver's window.  Each lemma is one step of the induction over the history.

pub open spec fn idof(n: int) -> MessageId { MessageId((n % 65536) as u16) }
pub type Sent = spec_fn(int) -> Bytes;

/// ordered: n messages were handed out; what is held is what the sender sent at those places
pub open spec fn ord_inv(s: AS, n: int, sent: Sent) -> bool {
    &&& n >= 0
    &&& s matches AS::Ordered(p, m) && p == idof(n) && forall|i: MessageId| #[trigger] m.dom().contains(i) ==> fwd(p, i) < 32768 && m[i].1 == sent(n + fwd(p, i))
}
pub proof fn ordered_initial(s: AS, sent: Sent) requires s matches AS::Ordered(p, m) && p.0 == 0 && m == Map::<MessageId, ReceivedMessage>::empty() ensures ord_inv(s, 0, sent) {}
pub proof fn ordered_receive(s: AS, n: int, sent: Sent, a: int, t: Tick, b: Bytes)
    requires ord_inv(s, n, sent), n - 32768 <= a < n + 32768, a >= 0, b == sent(a),
    ensures s.admits(Some(idof(a))) ==> a >= n && ord_inv(s.prepared(Some(idof(a))).pushed(Some(idof(a)), t, b), n, sent) && ord_inv(s.prepared(Some(idof(a))), n, sent)
        && s.pushed(Some(idof(a)), t, b)->Ordered_1.dom().contains(idof(a)),
        // nothing that is still needed is refused
        a >= n && !s->Ordered_1.dom().contains(idof(a)) ==> s.admits(Some(idof(a))),
{}
/// the n-th message handed out is the n-th message sent, and if that one has arrived it is handed out
pub proof fn ordered_read(s: AS, n: int, sent: Sent, out: Option<(Tick, Bytes, Option<MessageId>)>, post: AS)
    requires ord_inv(s, n, sent), s.read_to(out, post),
    ensures out matches Some((_, b, _)) ==> b == sent(n) && ord_inv(post, n + 1, sent),
        out is None ==> ord_inv(post, n, sent),
        s->Ordered_1.dom().contains(idof(n)) ==> out is Some,
{
    if out is Some { assert forall|i: MessageId| #[trigger] post->Ordered_1.dom().contains(i) implies fwd(post->Ordered_0, i) < 32768 && post->Ordered_1[i].1 == sent(n + 1 + fwd(post->Ordered_0, i)) by {
        assert(i != s->Ordered_0); assert(s->Ordered_1.dom().contains(i));
    } }
}

/// unordered reliable: `done` = absolute numbers completed so far (handed out or queued), `p` the window start
pub open spec fn un_inv(s: AS, p: int, done: Set<int>, out: Set<int>, queue: Seq<int>, sent: Sent) -> bool {
    &&& p >= 0
    &&& s matches AS::Unordered(w, q, r) && w == idof(p)
        && (forall|a: int| #[trigger] done.contains(a) ==> 0 <= a < p + 32768)
        && (forall|a: int| 0 <= a < p ==> #[trigger] done.contains(a))
        && (forall|i: MessageId| #[trigger] r.contains(i) <==> fwd(w, i) < 32768 && done.contains(p + fwd(w, i)))
        && queue.len() == q.len() && (forall|j: int| 0 <= j < q.len() ==> (#[trigger] q[j]).0 == idof(queue[j]) && q[j].2 == sent(queue[j]))
        && queue.no_duplicates() && (forall|j: int| 0 <= j < queue.len() ==> done.contains(#[trigger] queue[j]) && !out.contains(queue[j]))
        && (forall|a: int| #[trigger] out.contains(a) ==> done.contains(a))
        && (forall|a: int| #[trigger] done.contains(a) ==> out.contains(a) || queue.contains(a))
        // the window only waits for a message that has not arrived, or is still in the queue
        && (done.contains(p) ==> queue.contains(p))
}
pub proof fn un_initial(s: AS, sent: Sent) requires s matches AS::Unordered(p, q, r) && p.0 == 0 && q == Seq::<(MessageId, Tick, Bytes)>::empty() && r == Set::<MessageId>::empty()
    ensures un_inv(s, 0, Set::empty(), Set::empty(), Seq::empty(), sent) {}
pub proof fn un_receive(s: AS, p: int, done: Set<int>, out: Set<int>, queue: Seq<int>, sent: Sent, a: int, t: Tick, b: Bytes)
    requires un_inv(s, p, done, out, queue, sent), p - 32768 <= a < p + 32768, a >= 0, b == sent(a),
    ensures s.prepared(Some(idof(a))) == s,
        // accepted exactly when it was never completed before
        s.admits(Some(idof(a))) <==> !done.contains(a),
        s.admits(Some(idof(a))) ==> un_inv(s.pushed(Some(idof(a)), t, b), p, done.insert(a), out, queue.push(a), sent),
{
    let i0 = idof(a);
    assert(a >= p ==> fwd(idof(p), i0) == a - p);
    assert(a < p ==> fwd(idof(p), i0) >= 32768);
    if s.admits(Some(i0)) {
        let q2 = queue.push(a);
        assert(!queue.contains(a)) by { if queue.contains(a) { let j = choose|j: int| 0 <= j < queue.len() && queue[j] == a; assert(done.contains(queue[j])); } }
        assert forall|i: MessageId| #[trigger] s->Unordered_2.insert(i0).contains(i) <==> fwd(idof(p), i) < 32768 && done.insert(a).contains(p + fwd(idof(p), i)) by {
            if i != i0 { assert(p + fwd(idof(p), i) != a || fwd(idof(p), i) >= 32768); }
        }
        assert forall|x: int| #[trigger] done.insert(a).contains(x) implies out.contains(x) || q2.contains(x) by {
            if x == a { assert(q2[queue.len() as int] == a); } else if queue.contains(x) { let j = choose|j: int| 0 <= j < queue.len() && queue[j] == x; assert(q2[j] == x); }
        }
        assert(q2.contains(a)) by { assert(q2[queue.len() as int] == a); }
        if done.contains(p) { let j = choose|j: int| 0 <= j < queue.len() && queue[j] == p; assert(q2[j] == p); }
    }
}
/// each message is handed out once, with the bytes sent; something is handed out whenever anything is held
pub proof fn un_read(s: AS, p: int, done: Set<int>, out: Set<int>, queue: Seq<int>, sent: Sent, res: Option<(Tick, Bytes, Option<MessageId>)>, post: AS) -> (p2: int)
    requires un_inv(s, p, done, out, queue, sent), s.read_to(res, post),
    ensures res is None ==> queue.len() == 0 && un_inv(post, p, done, out, queue, sent),
        res matches Some((_, b, _)) ==> queue.len() > 0 && b == sent(queue[0]) && !out.contains(queue[0]) && p2 >= p && un_inv(post, p2, done, out.insert(queue[0]), queue.drop_first(), sent),
{
    if res is None { return p; }
    let a = queue[0];
    let q2 = queue.drop_first();
    let w = s->Unordered_0; let r = s->Unordered_2;
    assert(done.contains(queue[0]));
    assert forall|x: int| #[trigger] done.contains(x) implies out.insert(a).contains(x) || q2.contains(x) by {
        if !out.contains(x) && x != a { let j = choose|j: int| 0 <= j < queue.len() && queue[j] == x; assert(q2[j - 1] == x); }
    }
    assert forall|j: int| 0 <= j < q2.len() implies done.contains(#[trigger] q2[j]) && !out.insert(a).contains(q2[j]) by { assert(q2[j] == queue[j + 1]); assert(queue[j + 1] != queue[0]); }
    assert forall|j: int| 0 <= j < q2.len() implies (#[trigger] post->Unordered_1[j]).0 == idof(q2[j]) && post->Unordered_1[j].2 == sent(q2[j]) by { assert(q2[j] == queue[j + 1]); assert(s->Unordered_1[j + 1] == post->Unordered_1[j]); }
    if s->Unordered_1[0].0 == w {
        // idof(a) == idof(p) and both less than half the space apart: the head is p itself, or a long gone one
        let w2 = post->Unordered_0; let r2 = post->Unordered_2;
        let k = choose|k: int| slid_by(w, r, w2, r2, k);
        assert forall|j: int| 0 <= j < k implies j < 32768 && #[trigger] done.contains(p + j) by { un_prefix(s, p, done, out, queue, sent, k, j); }
        let p2 = p + k;
        assert(w2 == idof(p2));
        assert(k <= 32768) by { if k > 32768 { un_prefix(s, p, done, out, queue, sent, k, 32768); } }
        assert forall|i: MessageId| #[trigger] r2.contains(i) <==> fwd(w2, i) < 32768 && done.contains(p2 + fwd(w2, i)) by {
            let d = fwd(w, i);
            if r2.contains(i) {
                assert(r.contains(i));
                if d < k { assert(i == nth(w, d)); }
                assert(fwd(w2, i) == d - k);
            }
            if fwd(w2, i) < 32768 && done.contains(p2 + fwd(w2, i)) {
                let x = p2 + fwd(w2, i);
                assert(x < p + 32768);
                assert(d == x - p);
                assert(r.contains(i));
                if exists|j: int| 0 <= j < k && i == #[trigger] nth(w, j) { let j = choose|j: int| 0 <= j < k && i == #[trigger] nth(w, j); assert(fwd(w, nth(w, j)) == j); }
            }
        }
        assert forall|x: int| 0 <= x < p2 implies #[trigger] done.contains(x) by { if x >= p { assert(done.contains(p + (x - p))); } }
        assert(!done.contains(p2)) by { if done.contains(p2) { assert(fwd(w2, w2) == 0); assert(r2.contains(w2)); } }
        return p2;
    }
    assert(a != p);
    if done.contains(p) { let j = choose|j: int| 0 <= j < queue.len() && queue[j] == p; assert(q2[j - 1] == p); }
    p
}
proof fn un_prefix(s: AS, p: int, done: Set<int>, out: Set<int>, queue: Seq<int>, sent: Sent, k: int, j: int)
    requires un_inv(s, p, done, out, queue, sent), prefix_in(s->Unordered_0, s->Unordered_2, k), 0 <= j < k,
    ensures j < 32768, done.contains(p + j)
    decreases j
{
    let w = s->Unordered_0;
    assert(s->Unordered_2.contains(nth(w, j)));
    assert(fwd(w, nth(w, j)) == j % 65536);
    if j >= 32768 {
        un_prefix(s, p, done, out, queue, sent, k, j - 1);
    }
}

/// sequenced: `seen`, `comp` absolute numbers of the newest seen and newest completed message, `last` of the newest handed out
pub open spec fn sq_inv(s: AS, seen: int, comp: int, last: int, sent: Sent) -> bool {
    &&& -1 <= last <= comp <= seen
    &&& s matches AS::Seqd(rel, ready, ns, nc)
        && (if seen < 0 { ns is None } else { ns == Some(idof(seen)) })
        && (if comp < 0 { nc is None } else { nc == Some(idof(comp)) })
        && (ready matches Some((t, b, i)) ==> comp == seen && last < comp && i == idof(comp) && b == sent(comp))
        && seen - comp < 65536
}
pub proof fn sq_initial(s: AS, sent: Sent) requires s matches AS::Seqd(rel, ready, a, b) && ready is None && a is None && b is None ensures sq_inv(s, -1, -1, -1, sent) {}
/// after a complete message newer than all seen arrives it is the one that will be handed out next
pub proof fn sq_receive(s: AS, seen: int, comp: int, last: int, sent: Sent, a: int, t: Tick, b: Bytes) -> (r: (int, int))
    requires sq_inv(s, seen, comp, last, sent), a >= 0, seen < 0 || seen - 32768 < a < seen + 32768, seen < 0 ==> a < 32768, b == sent(a), a - comp < 65536,
    ensures s.admits(Some(idof(a))) ==> a >= seen && sq_inv(s.prepared(Some(idof(a))), r.0, comp, last, sent) && sq_inv(s.prepared(Some(idof(a))).pushed(Some(idof(a)), t, b), r.0, r.1, last, sent),
        a > seen ==> s.admits(Some(idof(a))) && s.prepared(Some(idof(a))).pushed(Some(idof(a)), t, b)->Seqd_1 == Some((t, b, idof(a))),
{
    let i = idof(a);
    if seen >= 0 {
        assert(a < seen ==> older(i, idof(seen)));
        assert(a > seen ==> !older(i, idof(seen)) && i != idof(seen));
    }
    if comp >= 0 && a > comp { assert(i != idof(comp)); }
    (if a > seen { a } else { seen }, if a >= seen { a } else { comp })
}
/// what is handed out is newer than everything handed out before, with the bytes sent
pub proof fn sq_read(s: AS, seen: int, comp: int, last: int, sent: Sent, out: Option<(Tick, Bytes, Option<MessageId>)>, post: AS)
    requires sq_inv(s, seen, comp, last, sent), s.read_to(out, post),
    ensures out matches Some((_, b, _)) ==> comp > last && b == sent(comp) && sq_inv(post, seen, comp, comp, sent),
        out is None ==> sq_inv(post, seen, comp, last, sent),
{}

/// unordered unreliable: what is handed out is what arrived, in order, unchanged, as often as it arrived
pub proof fn uu_step(s: AS, oid: Option<MessageId>, t: Tick, b: Bytes)
    requires s is UnordUnrel
    ensures s.admits(oid), s.prepared(oid) == s, s.prepared(oid).pushed(oid, t, b) == AS::UnordUnrel(s->UnordUnrel_0.push((t, b))),
{}
}
fn main() {}

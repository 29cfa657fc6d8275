// Fragment acknowledgements: real code of channel/fragments/ack.rs
//@@ source crates/transport/transport/src/channel/fragments/ack.rs
//@@ item struct FragmentAckTracker
//@@ item struct FragmentAckReceiver
pub open spec fn trues(s: Seq<bool>) -> int decreases s.len() { if s.len() == 0 { 0 } else { trues(s.drop_last()) + (if s.last() { 1int } else { 0 }) } }
pub proof fn trues_update(s: Seq<bool>, i: int)
    requires 0 <= i < s.len()
    ensures trues(s.update(i, true)) == trues(s) + (if s[i] { 0int } else { 1 })
    decreases s.len()
{
    let u = s.update(i, true);
    if i == s.len() - 1 { assert(u.drop_last() =~= s.drop_last()); } else { trues_update(s.drop_last(), i); assert(u.drop_last() =~= s.drop_last().update(i, true)); }
}
pub proof fn trues_bound(s: Seq<bool>)
    ensures 0 <= trues(s) <= s.len(), trues(s) == s.len() ==> forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i], (exists|i: int| 0 <= i < s.len() && !#[trigger] s[i]) ==> trues(s) < s.len(),
        (forall|i: int| 0 <= i < s.len() ==> !#[trigger] s[i]) ==> trues(s) == 0,
        (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i]) ==> trues(s) == s.len()
    decreases s.len()
{
    if s.len() > 0 {
        trues_bound(s.drop_last());
        assert forall|i: int| trues(s) == s.len() && 0 <= i < s.len() implies #[trigger] s[i] by { if i < s.len() - 1 { assert(s.drop_last()[i]); } }
        if exists|i: int| 0 <= i < s.len() && !#[trigger] s[i] { let i = choose|i: int| 0 <= i < s.len() && !#[trigger] s[i]; if i < s.len() - 1 { assert(!s.drop_last()[i]); } }
        if forall|i: int| 0 <= i < s.len() ==> !#[trigger] s[i] { assert forall|i: int| 0 <= i < s.drop_last().len() implies !#[trigger] s.drop_last()[i] by { assert(!s[i]); } }
        if forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] { assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] s.drop_last()[i] by { assert(s[i]); } }
    }
}
proof fn all_received(o: Seq<bool>, i: int)
    requires 0 <= i < o.len()
    ensures trues(o.update(i, true)) == trues(o) + (if o[i] { 0int } else { 1 }), 0 <= trues(o.update(i, true)) <= o.len(),
        trues(o.update(i, true)) == o.len() <==> (forall|j: int| 0 <= j < o.len() ==> #[trigger] o.update(i, true)[j]),
        trues(o.update(i, true)) == o.len() <==> (forall|j: int| 0 <= j < o.len() && j != i ==> #[trigger] o[j]),
{
    let u = o.update(i, true);
    trues_update(o, i); trues_bound(u);
    if trues(u) == o.len() { assert forall|j: int| 0 <= j < o.len() && j != i implies #[trigger] o[j] by { assert(u[j]); } }
    else { let j = choose|j: int| 0 <= j < u.len() && !#[trigger] u[j]; if forall|k: int| 0 <= k < u.len() ==> #[trigger] u[k] { } else { assert(!u[j]); assert(j != i); assert(!o[j]); } }
}
impl FragmentAckTracker {
    pub open spec fn wf(self) -> bool { self.received@.len() == self.num_fragments && self.num_received_fragments == trues(self.received@) }
//@@ fn FragmentAckTracker::new
//@@ spec: ensures r.wf(), r.num_fragments == num_fragments, forall|i: int| 0 <= i < num_fragments ==> !#[trigger] r.received@[i]
//@@ rename: vec ! [ false ; num_fragments ] => vx_falses(num_fragments)
//@@ end
//@@ fn FragmentAckTracker::receive_ack
//@@ spec:
//@@ | requires old(self).wf(), fragment_index < old(self).num_fragments
//@@ | ensures final(self).wf(), final(self).num_fragments == old(self).num_fragments, final(self).received@ == old(self).received@.update(fragment_index as int, true),
//@@ |   // acknowledged exactly when every fragment is
//@@ |   r <==> (forall|i: int| 0 <= i < final(self).num_fragments ==> #[trigger] final(self).received@[i]),
//@@ |   r <==> (forall|i: int| 0 <= i < old(self).num_fragments && i != fragment_index ==> #[trigger] old(self).received@[i]),
//@@ start: let ghost u = self.received@.update(fragment_index as int, true); proof { all_received(self.received@, fragment_index as int); if self.received@[fragment_index as int] { assert(u =~= self.received@); } }
//@@ before "if self\.num_received_fragments ==": proof { assert(self.received@ =~= u); assert(self.num_received_fragments == trues(u)); assert(u.len() == self.num_fragments); }
//@@ end
}
#[verifier::external_body]
fn vx_falses(n: usize) -> (r: Vec<bool>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> !#[trigger] r@[i], trues(r@) == 0 { vec![false; n] }
impl FragmentAckReceiver {
    pub open spec fn wf(self) -> bool { forall|id: MessageId| #[trigger] self.fragment_messages@.dom().contains(id) ==> self.fragment_messages@[id].wf() }
    pub open spec fn all_but(self, id: MessageId, i: int) -> bool { forall|j: int| 0 <= j < self.fragment_messages@[id].num_fragments && j != i ==> #[trigger] self.fragment_messages@[id].received@[j] }
//@@ fn FragmentAckReceiver::new
//@@ spec: ensures r.wf(), r.fragment_messages@ == Map::<MessageId, FragmentAckTracker>::empty()
//@@ end
//@@ fn FragmentAckReceiver::add_new_fragment_to_wait_for
//@@ spec: requires old(self).wf() ensures final(self).wf(), exists|t: FragmentAckTracker| final(self).fragment_messages@ == old(self).fragment_messages@.insert(message_id, t) && t.num_fragments == num_fragments && (forall|i: int| 0 <= i < num_fragments ==> !#[trigger] t.received@[i])
//@@ end
//@@ fn FragmentAckReceiver::discard_message
//@@ spec: requires old(self).wf() ensures final(self).wf(), final(self).fragment_messages@ == old(self).fragment_messages@.remove(message_id)
//@@ end
//@@ fn FragmentAckReceiver::receive_fragment_ack
//@@ spec:
//@@ | requires old(self).wf(), fragment_index.0 <= usize::MAX,
//@@ |   old(self).fragment_messages@.dom().contains(message_id) ==> fragment_index.0 < old(self).fragment_messages@[message_id].num_fragments
//@@ | ensures final(self).wf(),
//@@ |   !old(self).fragment_messages@.dom().contains(message_id) ==> !r && final(self).fragment_messages@ == old(self).fragment_messages@,
//@@ |   old(self).fragment_messages@.dom().contains(message_id) ==> (r <==> old(self).all_but(message_id, fragment_index.0 as int)),
//@@ |   // a message reported acknowledged is forgotten, so it is reported once; the others are untouched
//@@ |   r ==> final(self).fragment_messages@ == old(self).fragment_messages@.remove(message_id),
//@@ |   !r && old(self).fragment_messages@.dom().contains(message_id) ==> exists|t: FragmentAckTracker| final(self).fragment_messages@ == old(self).fragment_messages@.insert(message_id, t)
//@@ |       && t.num_fragments == old(self).fragment_messages@[message_id].num_fragments && t.received@ == old(self).fragment_messages@[message_id].received@.update(fragment_index.0 as int, true)
//@@ end
}
//@@ include retain.inc OWNER=>FragmentAckReceiver VALUE=>FragmentAckTracker KEPT=>acks_kept

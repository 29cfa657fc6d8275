/// what HashMap::retain with the closure of cleanup leaves
pub open spec fn KEPT(m: Map<MessageId, VALUE>, n: Map<MessageId, VALUE>, t: Duration) -> bool {
    forall|id: MessageId| (#[trigger] n.dom().contains(id) <==> m.dom().contains(id) && recent(m[id].last_received, t)) && (n.dom().contains(id) ==> n[id] == m[id])
}
impl OWNER {
//@@ closure OWNER::cleanup retain
//@@ sig: fn vx_recent($1: &VALUE, cleanup_time: Duration) -> bool
//@@ closures: map unwrap_or_else
//@@ spec: ensures r == recent(c.last_received, cleanup_time)
//@@ end
    fn vx_retain(&mut self, cleanup_time: Duration)
        ensures KEPT(old(self).fragment_messages@, final(self).fragment_messages@, cleanup_time)
    {
        let ghost m0 = self.fragment_messages@;
        let ks = self.fragment_messages.vx_keys();
        let mut i: usize = 0;
        proof { assert forall|id: MessageId| m0.dom().contains(id) implies exists|j: int| 0 <= j < ks@.len() && #[trigger] ks@[j] == id by { assert(ks@.to_set().contains(id)); } }
        while i < ks.len()
            invariant i <= ks@.len(), ks@.no_duplicates(), ks@.to_set() == m0.dom(),
                forall|id: MessageId| #[trigger] self.fragment_messages@.dom().contains(id) ==> m0.dom().contains(id) && self.fragment_messages@[id] == m0[id],
                forall|j: int| i <= j < ks@.len() ==> self.fragment_messages@.dom().contains(#[trigger] ks@[j]),
                forall|j: int| 0 <= j < i ==> (self.fragment_messages@.dom().contains(#[trigger] ks@[j]) <==> recent(m0[ks@[j]].last_received, cleanup_time)),
            decreases ks@.len() - i
        {
            let keep = match self.fragment_messages.get(&ks[i]) { Some(c) => Self::vx_recent(c, cleanup_time), None => true };
            if !keep { self.fragment_messages.remove(&ks[i]); }
            i += 1;
        }
        proof {
            assert forall|id: MessageId| (#[trigger] self.fragment_messages@.dom().contains(id) <==> m0.dom().contains(id) && recent(m0[id].last_received, cleanup_time)) && (self.fragment_messages@.dom().contains(id) ==> self.fragment_messages@[id] == m0[id]) by {
                if m0.dom().contains(id) { assert(ks@.to_set().contains(id)); let j = choose|j: int| 0 <= j < ks@.len() && ks@[j] == id; assert(ks@[j] == id); }
            }
        }
    }
//@@ fn OWNER::cleanup
//@@ hoist: retain over self.fragment_messages => self.vx_retain(cleanup_time)
//@@ spec: ensures KEPT(old(self).fragment_messages@, final(self).fragment_messages@, cleanup_time)
//@@ end
}

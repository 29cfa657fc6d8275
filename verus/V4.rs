// V4: the history of past values used for rollback (C21).  Real code: crates/core/core/src/history_buffer.rs
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@@ include vecdeque.inc
//@@ include tick.inc
/// the stored value: nothing is known about it except that a clone is the same value
#[verifier::external_body]
pub struct Val { x: u64 }
type R = Val;
//@@ source crates/core/core/src/history_buffer.rs
//@@ item enum HistoryState
//@@ item struct HistoryBuffer
impl Clone for HistoryState<Val> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub open spec fn valof(s: HistoryState<Val>) -> Option<Val> { match s { HistoryState::Updated(v) => Some(v), HistoryState::Removed => None } }
pub open spec fn same_ref(r: Option<&Val>, s: Option<Val>) -> bool { match r { Some(v) => s == Some(*v), None => s is None } }
//@@ fn From<&'w HistoryState<R>> for Option::from
//@@ rename: fn from ( val : & 'w HistoryState < R > ) -> Self => fn vx_into<'w>(val: &'w HistoryState<R>) -> Option<&'w R>
//@@ spec: ensures same_ref(r, valof(*val))
//@@ end
impl HistoryState<Val> {
//@@ fn HistoryState::is_present
//@@ spec: ensures r == (valof(*self) is Some)
//@@ end
//@@ fn HistoryState::value
//@@ spec: ensures same_ref(r, valof(*self))
//@@ end
//@@ fn HistoryState::into_value
//@@ spec: ensures r == valof(self)
//@@ end
}
pub type E = (Tick, HistoryState<Val>);
pub open spec fn sorted(s: Seq<E>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.0 < (#[trigger] s[j]).0.0 }
/// the state at tick `t`: the last recorded one not after `t`
pub open spec fn at(s: Seq<E>, t: int) -> Option<HistoryState<Val>> decreases s.len() {
    if s.len() == 0 { None } else if s.last().0.0 <= t { Some(s.last().1) } else { at(s.drop_last(), t) }
}
pub open spec fn cut(s: Seq<E>, t: int, k: int) -> bool { 0 <= k <= s.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).0.0 <= t) && (forall|i: int| k <= i < s.len() ==> (#[trigger] s[i]).0.0 > t) }
pub proof fn at_cut(s: Seq<E>, t: int, k: int)
    requires cut(s, t, k)
    ensures at(s, t) == (if k == 0 { None } else { Some(s[k - 1].1) })
    decreases s.len()
{
    if s.len() > 0 && s.last().0.0 > t { at_cut(s.drop_last(), t, k); }
}
pub open spec fn count(s: Seq<E>, t: int) -> int decreases s.len() { if s.len() == 0 { 0 } else if s.last().0.0 <= t { s.len() as int } else { count(s.drop_last(), t) } }
pub proof fn count_cut(s: Seq<E>, t: int)
    requires sorted(s)
    ensures cut(s, t, count(s, t))
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        if s.last().0.0 > t {
            count_cut(d, t);
            assert forall|i: int| 0 <= i < count(s, t) implies (#[trigger] s[i]).0.0 <= t by { assert(d[i] == s[i]); }
            assert forall|i: int| count(s, t) <= i < s.len() implies (#[trigger] s[i]).0.0 > t by { if i < s.len() - 1 { assert(d[i] == s[i]); } }
        } else {
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0.0 <= t by { if i < s.len() - 1 { assert(s[i].0.0 < s[s.len() - 1].0.0); } }
        }
    }
}
/// dropping the first entries does not change the state at later ticks, as long as one at or before them is kept
pub proof fn at_suffix(s: Seq<E>, n: int, t: int)
    requires sorted(s), 0 <= n < s.len(), s[n].0.0 <= t
    ensures at(s.skip(n), t) == at(s, t)
    decreases s.len()
{
    count_cut(s, t);
    let k = count(s, t);
    assert(k > n);
    at_cut(s, t, k);
    assert(cut(s.skip(n), t, k - n));
    at_cut(s.skip(n), t, k - n);
}
/// re-anchoring the first entry at a later tick (still before the next one) changes nothing from that tick on
pub proof fn at_anchor(s: Seq<E>, a: Tick, t: int)
    requires sorted(s), s.len() > 0, s[0].0.0 <= a.0, s.len() > 1 ==> a.0 < s[1].0.0, t >= a.0
    ensures at(s.update(0, (a, s[0].1)), t) == at(s, t), sorted(s.update(0, (a, s[0].1)))
{
    let u = s.update(0, (a, s[0].1));
    count_cut(s, t);
    let k = count(s, t);
    assert(k > 0);
    at_cut(s, t, k);
    assert(cut(u, t, k));
    at_cut(u, t, k);
}
impl VecDeque<E> {
    /// partition_point(|(t, _)| *t <= tick) on a sorted buffer
    #[verifier::external_body]
    pub fn vx_count_le(&self, tick: Tick) -> (r: usize) requires sorted(self@) ensures cut(self@, tick.0 as int, r as int) { unimplemented!() }
    /// partition_point(|(t, _)| *t < tick) on a sorted buffer
    #[verifier::external_body]
    pub fn vx_count_lt(&self, tick: Tick) -> (r: usize) requires sorted(self@) ensures cut(self@, tick.0 as int - 1, r as int) { unimplemented!() }
}
impl HistoryBuffer<Val> {
    pub open spec fn wf(self) -> bool { sorted(self.buffer@) }
    pub open spec fn state(self, t: int) -> Option<HistoryState<Val>> { at(self.buffer@, t) }
    pub open spec fn present(self, t: int) -> Option<Val> { match self.state(t) { Some(s) => valof(s), None => None } }
//@@ fn HistoryBuffer::len
//@@ spec: ensures r == self.buffer@.len()
//@@ end
//@@ fn HistoryBuffer::is_empty
//@@ spec: ensures r == (self.buffer@.len() == 0)
//@@ end
//@@ fn HistoryBuffer::oldest
//@@ spec: ensures match r { Some(x) => self.buffer@.len() > 0 && *x == self.buffer@[0], None => self.buffer@.len() == 0 }
//@@ end
//@@ fn HistoryBuffer::most_recent
//@@ spec: ensures match r { Some(x) => self.buffer@.len() > 0 && *x == self.buffer@.last(), None => self.buffer@.len() == 0 }
//@@ end
//@@ fn HistoryBuffer::peek
//@@ spec: ensures match r { Some(x) => self.buffer@.len() > 0 && *x == self.buffer@.last(), None => self.buffer@.len() == 0 }
//@@ end
//@@ fn HistoryBuffer::second_most_recent
//@@ closures: and_then
//@@ rename: most_recent . into ( ) => vx_into(most_recent) ;; x . into ( ) => vx_into(x)
//@@ spec:
//@@ | requires self.wf(), self.buffer@.len() > 0 ==> self.buffer@.last().0.0 <= tick.0
//@@ | // the value just before the current tick
//@@ | ensures same_ref(r, self.present(tick.0 - 1))
//@@ start: proof { let s = self.buffer@; let t = tick.0 - 1; count_cut(s, t); at_cut(s, t, count(s, t)); if s.len() > 0 { if s.last().0.0 < tick.0 { assert(cut(s, t, s.len() as int)); at_cut(s, t, s.len() as int); } else { assert(cut(s, t, s.len() - 1)); at_cut(s, t, s.len() - 1); } } }
//@@ end
//@@ fn HistoryBuffer::get
//@@ closures: and_then
//@@ rename: x . into ( ) => vx_into(x) ;; partition_point ( | ( buffer_tick , _ ) | * buffer_tick <= tick ) => vx_count_le(tick) ;; partition_point ( | ( buffer_tick , _ ) | * buffer_tick < tick ) => vx_count_lt(tick)
//@@ spec:
//@@ | requires self.wf()
//@@ | ensures same_ref(r, self.present(tick.0 as int))
//@@ after "let partition": proof { count_cut(self.buffer@, tick.0 as int); at_cut(self.buffer@, tick.0 as int, count(self.buffer@, tick.0 as int)); }
//@@ end
//@@ fn HistoryBuffer::get_state
//@@ closures: map
//@@ rename: partition_point ( | ( buffer_tick , _ ) | * buffer_tick <= tick ) => vx_count_le(tick) ;; partition_point ( | ( buffer_tick , _ ) | * buffer_tick < tick ) => vx_count_lt(tick)
//@@ spec:
//@@ | requires self.wf()
//@@ | ensures match r { Some(s) => self.state(tick.0 as int) == Some(*s), None => self.state(tick.0 as int) is None }
//@@ after "let partition": proof { count_cut(self.buffer@, tick.0 as int); at_cut(self.buffer@, tick.0 as int, count(self.buffer@, tick.0 as int)); }
//@@ end
//@@ fn HistoryBuffer::clear
//@@ spec: ensures final(self).buffer@ == Seq::<E>::empty(), final(self).wf()
//@@ end
    /// `self` answers like `o` from `t` on and has forgotten everything before (if there was anything at or before `t`)
    pub open spec fn from_on(self, o: Self, t: int) -> bool {
        &&& self.wf()
        &&& forall|u: int| u >= t ==> #[trigger] self.state(u) == o.state(u)
        &&& (o.state(t) is Some ==> self.buffer@.len() > 0 && self.buffer@[0].0.0 == t && self.buffer@.len() <= o.buffer@.len())
        &&& (o.state(t) is None ==> self.buffer@ == o.buffer@)
    }
//@@ fn HistoryBuffer::clear_until_tick
//@@ rename: partition_point ( | ( buffer_tick , _ ) | buffer_tick <= & tick ) => vx_count_le(tick) ;; partition_point ( | ( buffer_tick , _ ) | buffer_tick < & tick ) => vx_count_lt(tick)
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures final(self).from_on(*old(self), tick.0 as int)
//@@ before "if partition == 0": let ghost s = self.buffer@; let ghost k = partition as int; proof { at_cut(s, tick.0 as int, k);
//@@ |   if k > 0 {
//@@ |     let m = s.skip(k - 1); assert(s.take(0) + m =~= m);
//@@ |     let f = m.update(0, (tick, m[0].1));
//@@ |     assert(sorted(m));
//@@ |     assert forall|u: int| u >= tick.0 implies #[trigger] at(f, u) == at(s, u) by { at_suffix(s, k - 1, u); at_anchor(m, tick, u); }
//@@ |     at_anchor(m, tick, tick.0 as int);
//@@ |   } }
//@@ end
//@@ fn HistoryBuffer::add_update
//@@ spec:
//@@ | requires old(self).wf(), old(self).buffer@.len() > 0 ==> old(self).buffer@.last().0.0 <= tick.0
//@@ | ensures final(self).recorded(*old(self), tick.0 as int, HistoryState::Updated(value))
//@@ end
//@@ fn HistoryBuffer::add_remove
//@@ spec:
//@@ | requires old(self).wf(), old(self).buffer@.len() > 0 ==> old(self).buffer@.last().0.0 <= tick.0
//@@ | ensures final(self).recorded(*old(self), tick.0 as int, HistoryState::Removed)
//@@ end
//@@ fn HistoryBuffer::add
//@@ spec:
//@@ | requires old(self).wf(), old(self).buffer@.len() > 0 ==> old(self).buffer@.last().0.0 <= tick.0
//@@ | ensures final(self).recorded(*old(self), tick.0 as int, match value { Some(v) => HistoryState::Updated(v), None => HistoryState::Removed })
//@@ end
    /// the state `x` holds from `t` on; before `t` nothing changed
    pub open spec fn recorded(self, o: Self, t: int, x: HistoryState<Val>) -> bool {
        &&& self.wf() && self.buffer@.len() > 0 && self.buffer@.last().0.0 == t
        &&& forall|u: int| #[trigger] self.state(u) == (if u >= t { Some(x) } else { o.state(u) })
    }
//@@ fn HistoryBuffer::add_state
//@@ closures: map
//@@ spec:
//@@ | requires old(self).wf(), old(self).buffer@.len() > 0 ==> old(self).buffer@.last().0.0 <= tick.0
//@@ | ensures final(self).recorded(*old(self), tick.0 as int, state)
//@@ before "self\.buffer\.push_back": let ghost m = self.buffer@;
//@@ after "self\.buffer\.push_back": proof { let n = self.buffer@; let o = old(self).buffer@; assert(n.drop_last() =~= m);
//@@ |   assert forall|u: int| #[trigger] at(n, u) == (if u >= tick.0 { Some(state) } else { at(o, u) }) by { if u < tick.0 && m.len() != o.len() { assert(at(o, u) == at(m, u)); } } }
//@@ end
//@@ fn HistoryBuffer::set_most_recent_tick
//@@ spec:
//@@ | requires old(self).wf(), old(self).buffer@.len() > 0 ==> tick.0 >= old(self).buffer@.last().0.0
//@@ | ensures final(self).wf(), old(self).buffer@.len() == 0 ==> final(self).buffer@ == old(self).buffer@,
//@@ |   old(self).buffer@.len() > 0 ==> final(self).buffer@ =~= old(self).buffer@.drop_last().push((tick, old(self).buffer@.last().1))
//@@ end
//@@ fn HistoryBuffer::clear_after_tick
//@@ rename: partition_point ( | ( buffer_tick , _ ) | buffer_tick <= & tick ) => vx_count_le(tick) ;; partition_point ( | ( buffer_tick , _ ) | buffer_tick < & tick ) => vx_count_lt(tick)
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures final(self).wf(), forall|u: int| #[trigger] final(self).state(u) == old(self).state(if u <= tick.0 { u } else { tick.0 as int })
//@@ before "self\.buffer\.truncate": proof { let s = self.buffer@; let k = partition as int; let n = s.take(k); at_cut(s, tick.0 as int, k);
//@@ |   assert forall|u: int| #[trigger] at(n, u) == at(s, if u <= tick.0 { u } else { tick.0 as int }) by {
//@@ |     if u <= tick.0 { count_cut(s, u); let q = count(s, u); at_cut(s, u, q); assert(q <= k); assert(cut(n, u, q)); at_cut(n, u, q); } else { assert(cut(n, u, k)); at_cut(n, u, k); } } }
//@@ end
//@@ fn HistoryBuffer::pop
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures final(self).wf(), match r { Some(x) => old(self).buffer@.len() > 0 && x == old(self).buffer@[0] && final(self).buffer@ == old(self).buffer@.skip(1), None => old(self).buffer@.len() == 0 && final(self).buffer@ == old(self).buffer@ }
//@@ end
//@@ fn HistoryBuffer::pop_until_tick
//@@ closures: map
//@@ rename: partition_point ( | ( buffer_tick , _ ) | buffer_tick <= & tick ) => vx_count_le(tick) ;; partition_point ( | ( buffer_tick , _ ) | buffer_tick < & tick ) => vx_count_lt(tick)
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures final(self).from_on(*old(self), tick.0 as int), r == old(self).state(tick.0 as int)
//@@ before "if partition == 0": let ghost s = self.buffer@; let ghost k = partition as int; proof { at_cut(s, tick.0 as int, k);
//@@ |   if k > 0 {
//@@ |     let m = s.skip(k - 1); assert(s.take(0) + m =~= m);
//@@ |     let f = m.update(0, (tick, m[0].1));
//@@ |     assert(sorted(m));
//@@ |     assert(seq![(tick, m[0].1)] + m.skip(1) =~= f);
//@@ |     assert forall|u: int| u >= tick.0 implies #[trigger] at(f, u) == at(s, u) by { at_suffix(s, k - 1, u); at_anchor(m, tick, u); }
//@@ |     at_anchor(m, tick, tick.0 as int);
//@@ |   } }
//@@ end
//@@ fn HistoryBuffer::clear_except_tick
//@@ closures: map
//@@ rename: partition_point ( | ( buffer_tick , _ ) | buffer_tick <= & tick ) => vx_count_le(tick) ;; partition_point ( | ( buffer_tick , _ ) | buffer_tick < & tick ) => vx_count_lt(tick)
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures final(self).wf(), r == old(self).state(tick.0 as int),
//@@ |   final(self).buffer@ =~= (match old(self).state(tick.0 as int) { Some(x) => seq![(tick, x)], None => Seq::<E>::empty() })
//@@ before "if partition == 0": let ghost s = self.buffer@; let ghost k = partition as int; proof { at_cut(s, tick.0 as int, k); if k > 0 { let m = s.skip(k - 1); assert(s.take(0) + m =~= m); } }
//@@ end
}
}
fn main() {}

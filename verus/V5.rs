// V5: the history of authoritative states (C22).  Real code: crates/core/core/src/confirmed_history.rs
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@@ include vecdeque.inc
//@@ include tick.inc
/// the stored value: nothing is known about it except that a clone is the same value and == is equality
#[verifier::external_body]
pub struct Val { x: u64 }
type R = Val;
type C = Val;
//@@ source crates/core/core/src/history_buffer.rs
//@@ item enum HistoryState
impl Clone for HistoryState<Val> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
fn vx_eq(a: &HistoryState<Val>, b: &HistoryState<Val>) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body]
fn vx_cloned(a: Option<&HistoryState<Val>>) -> (r: Option<HistoryState<Val>>) ensures r == (match a { Some(x) => Some(*x), None => None }) { unimplemented!() }
pub type HS = HistoryState<Val>;
pub open spec fn valof(s: HS) -> Option<Val> { match s { HistoryState::Updated(v) => Some(v), HistoryState::Removed => None } }
pub open spec fn oval(s: Option<HS>) -> Option<Val> { match s { Some(x) => valof(x), None => None } }
pub open spec fn same_ref(r: Option<&Val>, s: Option<Val>) -> bool { match r { Some(v) => s == Some(*v), None => s is None } }
pub open spec fn same_state(r: Option<&HS>, s: Option<HS>) -> bool { match r { Some(v) => s == Some(*v), None => s is None } }
impl HistoryState<Val> {
//@@ fn HistoryState::value
//@@ spec: ensures same_ref(r, valof(*self))
//@@ end
}
//@@ source crates/core/core/src/confirmed_history.rs
//@@ item enum ConfirmedHistoryState
//@@ item struct ConfirmedHistory
impl ConfirmedHistoryState<Val> {
//@@ fn ConfirmedHistoryState::explicit_state
//@@ spec: ensures same_state(r, expl(*self))
//@@ end
//@@ fn ConfirmedHistoryState::is_same_as_precedent
//@@ spec: ensures r == (expl(*self) is None)
//@@ end
}
pub open spec fn expl(s: ConfirmedHistoryState<Val>) -> Option<HS> { match s { ConfirmedHistoryState::Explicit(x) => Some(x), ConfirmedHistoryState::SameAsPrecedent => None } }
pub type E = (Tick, ConfirmedHistoryState<Val>);
pub open spec fn sorted(s: Seq<E>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.0 < (#[trigger] s[j]).0.0 }
/// what the first n entries resolve to: the last explicit one among them
pub open spec fn res(s: Seq<E>, n: int) -> Option<HS> decreases n { if n <= 0 { None } else { match expl(s[n - 1].1) { Some(x) => Some(x), None => res(s, n - 1) } } }
pub open spec fn cut(s: Seq<E>, t: int, k: int) -> bool { 0 <= k <= s.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).0.0 <= t) && (forall|i: int| k <= i < s.len() ==> (#[trigger] s[i]).0.0 > t) }
/// number of entries not after `t`
pub open spec fn count(s: Seq<E>, t: int) -> int decreases s.len() { if s.len() == 0 { 0 } else if s.last().0.0 <= t { s.len() as int } else { count(s.drop_last(), t) } }
/// the authoritative state at tick `t`
pub open spec fn at(s: Seq<E>, t: int) -> Option<HS> { res(s, count(s, t)) }
pub proof fn count_cut(s: Seq<E>, t: int)
    requires sorted(s)
    ensures cut(s, t, count(s, t))
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        if s.last().0.0 > t {
            count_cut(d, t);
            assert forall|i: int| 0 <= i < count(s, t) implies (#[trigger] s[i]).0.0 <= t by { assert(d[i] == s[i]); }
            assert forall|i: int| count(s, t) <= i < s.len() implies (#[trigger] s[i]).0.0 > t by { if i < s.len() - 1 { assert(d[i] == s[i]); } }
        } else {
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0.0 <= t by { if i < s.len() - 1 { assert(s[i].0.0 < s[s.len() - 1].0.0); } }
        }
    }
}
/// the cut position is unique
pub proof fn cut_is(s: Seq<E>, t: int, k: int)
    requires sorted(s), cut(s, t, k)
    ensures count(s, t) == k
{
    count_cut(s, t);
    let q = count(s, t);
    if q < k { assert(s[q].0.0 <= t); } else if k < q { assert(s[k].0.0 <= t); }
}
pub proof fn res_prefix(a: Seq<E>, b: Seq<E>, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i]
    ensures res(a, n) == res(b, n)
    decreases n
{
    if n > 0 { assert(a[n - 1] == b[n - 1]); res_prefix(a, b, n - 1); }
}
/// entries n.. of `a` are entries m.. of `b`, and both resolve alike up to there: they resolve alike from there on
pub proof fn res_suffix(a: Seq<E>, n: int, b: Seq<E>, m: int, k: int)
    requires 0 <= n, 0 <= m, 0 <= k, res(a, n) == res(b, m), forall|i: int| 0 <= i < k ==> expl(#[trigger] a[n + i].1) == expl(b[m + i].1)
    ensures res(a, n + k) == res(b, m + k)
    decreases k
{
    if k > 0 { res_suffix(a, n, b, m, k - 1); assert(expl(a[n + (k - 1)].1) == expl(b[m + (k - 1)].1)); }
}
/// explicit entries decide, whatever came before
pub proof fn res_decided(a: Seq<E>, n: int, b: Seq<E>, m: int, k: int)
    requires 0 <= n, 0 <= m, 0 <= k, forall|i: int| 0 <= i < k ==> expl(#[trigger] a[n + i].1) == expl(b[m + i].1), exists|i: int| 0 <= i < k && expl(#[trigger] a[n + i].1) is Some
    ensures res(a, n + k) == res(b, m + k)
    decreases k
{
    if k > 0 {
        assert(expl(a[n + (k - 1)].1) == expl(b[m + (k - 1)].1));
        if expl(a[n + (k - 1)].1) is None {
            let i = choose|i: int| 0 <= i < k && expl(#[trigger] a[n + i].1) is Some;
            assert(i < k - 1 && expl(a[n + i].1) is Some);
            res_decided(a, n, b, m, k - 1);
        }
    }
}
impl VecDeque<E> {
    /// partition_point(|(t, _)| *t <= tick) on a sorted buffer
    #[verifier::external_body]
    pub fn vx_count_le(&self, tick: Tick) -> (r: usize) requires sorted(self@) ensures cut(self@, tick.0 as int, r as int) { unimplemented!() }
    /// partition_point(|(t, _)| *t < tick) on a sorted buffer
    #[verifier::external_body]
    pub fn vx_count_lt(&self, tick: Tick) -> (r: usize) requires sorted(self@) ensures cut(self@, tick.0 as int - 1, r as int) { unimplemented!() }
}
fn vx_checked_sub(a: usize, b: usize) -> (r: Option<usize>) ensures r == (if a >= b { Some((a - b) as usize) } else { None }) { if a >= b { Some(a - b) } else { None } }
/// the buffer after `x` was put at tick `t`
pub open spec fn put(s: Seq<E>, t: Tick, x: ConfirmedHistoryState<Val>) -> Seq<E> {
    let p = count(s, t.0 - 1);
    if p < s.len() && s[p].0 == t { s.update(p, (t, x)) } else { s.insert(p, (t, x)) }
}
pub open spec fn holds_at(s: Seq<E>, t: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.0 == t }
/// putting something at `t`: the buffer stays sorted, `t` is now there, the other ticks are what they were
pub proof fn put_sorted(s: Seq<E>, t: Tick, x: ConfirmedHistoryState<Val>)
    requires sorted(s)
    ensures sorted(put(s, t, x)), cut(s, t.0 - 1, count(s, t.0 - 1)), put(s, t, x)[count(s, t.0 - 1)] == (t, x), count(s, t.0 - 1) < put(s, t, x).len()
{
    count_cut(s, t.0 - 1);
    let p = count(s, t.0 - 1);
    let n = put(s, t, x);
    let hit = p < s.len() && s[p].0 == t;
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i]).0.0 < (#[trigger] n[j]).0.0 by {
        if hit { assert(i != p ==> n[i] == s[i]); assert(j != p ==> n[j] == s[j]); assert(s[i].0.0 < s[j].0.0); }
        else {
            let a = if i < p { i } else { i - 1 }; let b = if j < p { j } else { j - 1 };
            assert(i != p ==> n[i] == s[a]); assert(j != p ==> n[j] == s[b]);
            if i != p && j != p { assert(s[a].0.0 < s[b].0.0); } else if i == p { assert(s[b].0.0 > t.0) by { if !hit && b == p { assert(s[p].0.0 != t.0) by { assert(s[p].0 != t); } } else { assert(s[p].0.0 < s[b].0.0); } } } else { }
        }
    }
}
/// ... before `t` nothing changes
pub proof fn put_before(s: Seq<E>, t: Tick, x: ConfirmedHistoryState<Val>, u: int)
    requires sorted(s), u < t.0
    ensures at(put(s, t, x), u) == at(s, u)
{
    put_sorted(s, t, x);
    let p = count(s, t.0 - 1);
    let n = put(s, t, x);
    count_cut(s, u);
    let q = count(s, u);
    assert(q <= p) by { if q > p { assert(s[p].0.0 <= u); } }
    assert(cut(n, u, q)) by {
        assert forall|i: int| 0 <= i < q implies (#[trigger] n[i]).0.0 <= u by { assert(n[i] == s[i]); }
        assert forall|i: int| q <= i < n.len() implies (#[trigger] n[i]).0.0 > u by { if i < p { assert(n[i] == s[i]); } else if i > p { assert(n[p].0.0 < n[i].0.0); } }
    }
    cut_is(n, u, q);
    assert forall|i: int| 0 <= i < q implies #[trigger] n[i] == s[i] by {}
    res_prefix(n, s, q);
}
/// ... from `t` on, the new entry holds until the next explicit one
pub proof fn put_from(s: Seq<E>, t: Tick, x: ConfirmedHistoryState<Val>, u: int)
    requires sorted(s), u >= t.0
    ensures at(put(s, t, x), u) == (if changes(s, t.0 as int, u) { at(s, u) } else { match expl(x) { Some(y) => Some(y), None => at(s, t.0 - 1) } })
{
    put_sorted(s, t, x);
    let p = count(s, t.0 - 1);
    let n = put(s, t, x);
    let hit = p < s.len() && s[p].0 == t;
    let o = if hit { p + 1 } else { p };
    count_cut(s, u);
    let q = count(s, u);
    assert(q >= o) by { if q < o { if q < p { assert(s[q].0.0 > u); } else { assert(s[p].0.0 > u); } } }
    let k = q - o;
    assert forall|i: int| 0 <= i && o + i < s.len() implies #[trigger] n[p + 1 + i] == s[o + i] by {}
    assert(cut(n, u, p + 1 + k)) by {
        assert forall|i: int| 0 <= i < p + 1 + k implies (#[trigger] n[i]).0.0 <= u by { if i < p { assert(n[i] == s[i]); } else if i > p { assert(n[p + 1 + (i - p - 1)] == s[o + (i - p - 1)]); } }
        assert forall|i: int| p + 1 + k <= i < n.len() implies (#[trigger] n[i]).0.0 > u by { assert(n[p + 1 + (i - p - 1)] == s[o + (i - p - 1)]); }
    }
    cut_is(n, u, p + 1 + k);
    assert forall|i: int| 0 <= i < p implies #[trigger] n[i] == s[i] by {}
    res_prefix(n, s, p);
    assert(res(n, p + 1) == (match expl(x) { Some(y) => Some(y), None => res(s, p) }));
    assert forall|i: int| 0 <= i < k implies expl(#[trigger] n[p + 1 + i].1) == expl(s[o + i].1) by { assert(n[p + 1 + i] == s[o + i]); }
    if changes(s, t.0 as int, u) {
        let j = choose|j: int| 0 <= j < s.len() && t.0 < (#[trigger] s[j]).0.0 && s[j].0.0 <= u && expl(s[j].1) is Some;
        assert(j >= o) by { if j < o { if j < p { assert(s[j].0.0 <= t.0 - 1); } else { assert(s[p].0 == t); } } }
        assert(j < q) by { if j >= q { assert(s[j].0.0 > u); } }
        assert(expl(n[p + 1 + (j - o)].1) is Some);
        res_decided(n, p + 1, s, o, k);
    } else {
        undecided(n, p + 1, k, s, t.0 as int, u, o);
    }
}
/// some explicit entry lies in (t, u]
pub open spec fn changes(s: Seq<E>, t: int, u: int) -> bool { exists|j: int| 0 <= j < s.len() && t < (#[trigger] s[j]).0.0 && s[j].0.0 <= u && expl(s[j].1) is Some }
proof fn undecided(n: Seq<E>, m: int, k: int, s: Seq<E>, t: int, u: int, o: int)
    requires !changes(s, t, u), 0 <= k, 0 <= m, 0 <= o, o + k <= s.len(), forall|i: int| 0 <= i < k ==> expl(#[trigger] n[m + i].1) == expl(s[o + i].1), forall|i: int| 0 <= i < k ==> t < (#[trigger] s[o + i]).0.0 && s[o + i].0.0 <= u
    ensures res(n, m + k) == res(n, m)
    decreases k
{
    if k > 0 { let z = k - 1; assert(expl(n[m + z].1) == expl(s[o + z].1)); assert(t < s[o + z].0.0); assert(expl(s[o + z].1) is None); undecided(n, m, k - 1, s, t, u, o); }
}
/// an unchanged marker where nothing is recorded changes nothing at any tick
pub proof fn put_marker(s: Seq<E>, t: Tick, u: int)
    requires sorted(s), !holds_at(s, t.0 as int)
    ensures at(put(s, t, ConfirmedHistoryState::SameAsPrecedent), u) == at(s, u)
{
    let x = ConfirmedHistoryState::<Val>::SameAsPrecedent;
    if u < t.0 { put_before(s, t, x, u); }
    else {
        put_from(s, t, x, u);
        if !changes(s, t.0 as int, u) {
            count_cut(s, t.0 - 1); count_cut(s, u);
            let p = count(s, t.0 - 1); let q = count(s, u);
            assert(p <= q) by { if q < p { assert(s[q].0.0 > u); } }
            assert forall|i: int| 0 <= i < q - p implies t.0 < (#[trigger] s[p + i]).0.0 && s[p + i].0.0 <= u by { assert(s[p + i].0.0 > t.0 - 1); assert(s[p + i].0.0 != t.0); }
            undecided(s, p, q - p, s, t.0 as int, u, p);
        }
    }
}
impl ConfirmedHistory<Val> {
    pub open spec fn wf(self) -> bool { sorted(self.buffer@) }
    pub open spec fn state(self, t: int) -> Option<HS> { at(self.buffer@, t) }
//@@ fn ConfirmedHistory::len
//@@ spec: ensures r == self.buffer@.len()
//@@ end
//@@ fn ConfirmedHistory::is_empty
//@@ spec: ensures r == (self.buffer@.len() == 0)
//@@ end
//@@ fn ConfirmedHistory::get_nth_tick
//@@ closures: map
//@@ spec: ensures r == (if n < self.buffer@.len() { Some(self.buffer@[n as int].0) } else { None })
//@@ end
//@@ fn ConfirmedHistory::get_nth_state
//@@ closures: map and_then
//@@ spec: ensures match r { Some((t, s)) => n < self.buffer@.len() && t == self.buffer@[n as int].0 && res(self.buffer@, n + 1) == Some(*s), None => n >= self.buffer@.len() || res(self.buffer@, n + 1) is None }
//@@ end
//@@ fn ConfirmedHistory::get_nth_present
//@@ closures: map and_then
//@@ spec: ensures match r { Some((t, v)) => n < self.buffer@.len() && t == self.buffer@[n as int].0 && oval(res(self.buffer@, n + 1)) == Some(*v), None => n >= self.buffer@.len() || oval(res(self.buffer@, n + 1)) is None }
//@@ end
//@@ fn ConfirmedHistory::start_present
//@@ spec: ensures match r { Some((t, v)) => 0 < self.buffer@.len() && t == self.buffer@[0].0 && oval(res(self.buffer@, 1)) == Some(*v), None => 0 == self.buffer@.len() || oval(res(self.buffer@, 1)) is None }
//@@ end
//@@ fn ConfirmedHistory::newest_present
//@@ closures: map and_then
//@@ rename: self . buffer . len ( ) . checked_sub ( 1 ) => vx_checked_sub(self.buffer.len(), 1)
//@@ spec: ensures match r { Some((t, v)) => 0 < self.buffer@.len() && t == self.buffer@.last().0 && oval(res(self.buffer@, self.buffer@.len() as int)) == Some(*v), None => 0 == self.buffer@.len() || oval(res(self.buffer@, self.buffer@.len() as int)) is None }
//@@ end
//@@ fn ConfirmedHistory::get_present
//@@ closures: and_then
//@@ spec: requires self.wf() ensures same_ref(r, oval(self.state(tick.0 as int)))
//@@ end
//@@ fn ConfirmedHistory::get_state_at_or_before
//@@ spec: requires self.wf() ensures same_state(r, self.state(tick.0 as int))
//@@ start: proof { count_cut(self.buffer@, tick.0 as int); }
//@@ end
//@@ fn ConfirmedHistory::get_state_at
//@@ closures: and_then then_some
//@@ rename: partition_point ( | ( buffer_tick , _ ) | * buffer_tick < tick ) => vx_count_lt(tick) ;; partition_point ( | ( buffer_tick , _ ) | * buffer_tick <= tick ) => vx_count_le(tick)
//@@ spec: requires self.wf() ensures holds_at(self.buffer@, tick.0 as int) ==> same_state(r, self.state(tick.0 as int)), !holds_at(self.buffer@, tick.0 as int) ==> r is None
//@@ after "let pos": proof { let s = self.buffer@; let p = pos as int; cut_is(s, tick.0 - 1, p); if holds_at(s, tick.0 as int) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.0 == tick.0; assert(i >= p); if i > p { assert(s[p].0.0 < s[i].0.0); } }
//@@ |   if p < s.len() && s[p].0 == tick { assert(cut(s, tick.0 as int, p + 1)) by { assert forall|i: int| p + 1 <= i < s.len() implies (#[trigger] s[i]).0.0 > tick.0 by { assert(s[p].0.0 < s[i].0.0); } } cut_is(s, tick.0 as int, p + 1); } }
//@@ end
//@@ fn ConfirmedHistory::index_at_or_before
//@@ rename: partition . checked_sub ( 1 ) => vx_checked_sub(partition, 1) ;; partition_point ( | ( buffer_tick , _ ) | * buffer_tick < tick ) => vx_count_lt(tick) ;; partition_point ( | ( buffer_tick , _ ) | * buffer_tick <= tick ) => vx_count_le(tick)
//@@ spec: requires self.wf() ensures match r { Some(i) => i < self.buffer@.len() && count(self.buffer@, tick.0 as int) == i + 1, None => count(self.buffer@, tick.0 as int) == 0 }
//@@ after "let partition": proof { cut_is(self.buffer@, tick.0 as int, partition as int); }
//@@ end
//@@ fn ConfirmedHistory::index_before
//@@ rename: partition . checked_sub ( 1 ) => vx_checked_sub(partition, 1) ;; partition_point ( | ( buffer_tick , _ ) | * buffer_tick < tick ) => vx_count_lt(tick) ;; partition_point ( | ( buffer_tick , _ ) | * buffer_tick <= tick ) => vx_count_le(tick)
//@@ spec: requires self.wf() ensures match r { Some(i) => i < self.buffer@.len() && count(self.buffer@, tick.0 - 1) == i + 1, None => count(self.buffer@, tick.0 - 1) == 0 }
//@@ after "let partition": proof { cut_is(self.buffer@, tick.0 - 1, partition as int); }
//@@ end
//@@ closure ConfirmedHistory::resolve_state_at_index find_map
//@@ sig: fn vx_explicit_at(&self, $0: usize) -> Option<&HistoryState<C>>
//@@ closures: and_then
//@@ spec: ensures i < self.buffer@.len() ==> same_state(r, expl(self.buffer@[i as int].1)), i >= self.buffer@.len() ==> r is None
//@@ end
    /// (0..=index).rev().find_map(..): the first answer, from the last index down
    fn vx_find_from(&self, index: usize) -> (r: Option<&HistoryState<C>>)
        ensures index < self.buffer@.len() ==> same_state(r, res(self.buffer@, index + 1))
    {
        let mut i = index;
        loop
            invariant index < self.buffer@.len() ==> i <= index && res(self.buffer@, index + 1) == res(self.buffer@, i + 1)
            decreases i
        {
            let x = self.vx_explicit_at(i);
            if x.is_some() { return x; }
            if i == 0 { assert(index < self.buffer@.len() ==> res(self.buffer@, 1) == res(self.buffer@, 0)); return None; }
            i -= 1;
        }
    }
//@@ fn ConfirmedHistory::resolve_state_at_index
//@@ hoist: find_map => self.vx_find_from($R)
//@@ rename: ( 0 ..= index ) . rev ( ) => index
//@@ spec: ensures index < self.buffer@.len() ==> same_state(r, res(self.buffer@, index + 1))
//@@ end
//@@ fn ConfirmedHistory::state_before
//@@ spec: requires self.wf() ensures same_state(r, self.state(tick.0 - 1))
//@@ start: proof { count_cut(self.buffer@, tick.0 - 1); }
//@@ end
//@@ fn ConfirmedHistory::insert_raw
//@@ rename: partition_point ( | ( buffer_tick , _ ) | * buffer_tick < tick ) => vx_count_lt(tick) ;; partition_point ( | ( buffer_tick , _ ) | * buffer_tick <= tick ) => vx_count_le(tick) ;; self . buffer [ pos ] . 0 => self.buffer.vx_at(pos).0 ;; self . buffer [ pos ] = ( tick , state ) => self.buffer.vx_set(pos, (tick, state))
//@@ spec: requires old(self).wf() ensures final(self).wf(), final(self).buffer@ == put(old(self).buffer@, tick, state)
//@@ after "let pos": proof { cut_is(self.buffer@, tick.0 - 1, pos as int); put_sorted(self.buffer@, tick, state); }
//@@ end
    /// the explicit state `x` was recorded at `t`: it holds from `t` until the next explicit one, nothing before changed
    pub open spec fn recorded(self, o: Self, t: int, x: HS) -> bool {
        &&& self.wf() && holds_at(self.buffer@, t)
        &&& forall|u: int| #[trigger] self.state(u) == (if u < t || changes(o.buffer@, t, u) { o.state(u) } else { Some(x) })
    }
//@@ fn ConfirmedHistory::insert_explicit
//@@ spec: requires old(self).wf() ensures final(self).recorded(*old(self), tick.0 as int, state)
//@@ start: proof { let x = ConfirmedHistoryState::Explicit(state); let s = self.buffer@; put_sorted(s, tick, x); assert(put(s, tick, x)[count(s, tick.0 - 1)].0.0 == tick.0); assert forall|u: int| #[trigger] at(put(s, tick, x), u) == (if u < tick.0 || changes(s, tick.0 as int, u) { at(s, u) } else { Some(state) }) by { if u < tick.0 { put_before(s, tick, x, u); } else { put_from(s, tick, x, u); } } }
//@@ end
//@@ fn ConfirmedHistory::insert_present_explicit
//@@ spec: requires old(self).wf() ensures final(self).recorded(*old(self), tick.0 as int, HistoryState::Updated(value))
//@@ end
//@@ fn ConfirmedHistory::clear
//@@ spec: ensures final(self).wf(), final(self).buffer@ == Seq::<E>::empty()
//@@ end
//@@ fn ConfirmedHistory::insert
//@@ closures: is_some_and
//@@ rename: prev == & state => vx_eq(prev, &state)
//@@ spec: requires old(self).wf() ensures final(self).recorded(*old(self), tick.0 as int, state)
//@@ before "self\.insert_raw": proof { let x = entry; let s = self.buffer@; put_sorted(s, tick, x); assert(put(s, tick, x)[count(s, tick.0 - 1)].0.0 == tick.0); assert forall|u: int| #[trigger] at(put(s, tick, x), u) == (if u < tick.0 || changes(s, tick.0 as int, u) { at(s, u) } else { Some(state) }) by { if u < tick.0 { put_before(s, tick, x, u); } else { put_from(s, tick, x, u); } } }
//@@ end
//@@ fn ConfirmedHistory::insert_present
//@@ spec: requires old(self).wf() ensures final(self).recorded(*old(self), tick.0 as int, HistoryState::Updated(value))
//@@ end
//@@ fn ConfirmedHistory::insert_removed
//@@ spec: requires old(self).wf() ensures final(self).recorded(*old(self), tick.0 as int, HistoryState::Removed)
//@@ end
//@@ fn ConfirmedHistory::add_unchanged
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures final(self).wf(), forall|u: int| #[trigger] final(self).state(u) == old(self).state(u),
//@@ |   !r ==> final(self).buffer@ == old(self).buffer@, r ==> holds_at(final(self).buffer@, tick.0 as int),
//@@ |   r <==> !(holds_at(old(self).buffer@, tick.0 as int) && old(self).state(tick.0 as int) is Some) && old(self).state(tick.0 - 1) is Some
//@@ before "self\.insert_raw": proof { let s = self.buffer@; let x = ConfirmedHistoryState::<Val>::SameAsPrecedent; put_sorted(s, tick, x); assert(put(s, tick, x)[count(s, tick.0 - 1)].0.0 == tick.0); 
//@@ |   if holds_at(s, tick.0 as int) { later_some(s, tick.0 - 1, tick.0 as int); }
//@@ |   assert forall|u: int| #[trigger] at(put(s, tick, x), u) == at(s, u) by { put_marker(s, tick, u); } }
//@@ end
//@@ fn ConfirmedHistory::push_unchanged
//@@ closures: and_then
//@@ rename: self . buffer . len ( ) . checked_sub ( 1 ) => vx_checked_sub(self.buffer.len(), 1)
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures final(self).wf(), forall|u: int| #[trigger] final(self).state(u) == old(self).state(u), r is None ==> final(self).buffer@ == old(self).buffer@,
//@@ |   r matches Some(t) ==> old(self).buffer@.len() > 0 && t == old(self).buffer@.last().0 && holds_at(final(self).buffer@, tick.0 as int),
//@@ |   r is Some <==> old(self).buffer@.len() > 0 && tick.0 > old(self).buffer@.last().0.0 && oval(old(self).state(tick.0 as int)) is Some
//@@ before "if tick <= newest_tick": proof { let s = self.buffer@; if tick.0 > newest_tick.0 { assert(cut(s, tick.0 - 1, s.len() as int)) by { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0.0 <= tick.0 - 1 by { if i < s.len() - 1 { assert(s[i].0.0 < s[s.len() - 1].0.0); } } } assert(cut(s, tick.0 as int, s.len() as int)); cut_is(s, tick.0 - 1, s.len() as int); cut_is(s, tick.0 as int, s.len() as int); } }
//@@ end
}
/// once there is a state there is one at every later tick
pub proof fn later_some(s: Seq<E>, t: int, u: int)
    requires sorted(s), t <= u, at(s, t) is Some
    ensures at(s, u) is Some
{
    count_cut(s, t); count_cut(s, u);
    let p = count(s, t); let q = count(s, u);
    assert(p <= q) by { if q < p { assert(s[q].0.0 > u); } }
    grow(s, p, q);
}
proof fn grow(s: Seq<E>, p: int, q: int)
    requires 0 <= p <= q, res(s, p) is Some
    ensures res(s, q) is Some
    decreases q
{ if p < q { grow(s, p, q - 1); } }
//@@ include V5b.inc
}
fn main() {}

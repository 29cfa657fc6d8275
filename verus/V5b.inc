/// putting at the end
pub proof fn put_last(s: Seq<E>, t: Tick, x: ConfirmedHistoryState<Val>)
    requires sorted(s), s.len() > 0 ==> s.last().0.0 <= t.0
    ensures put(s, t, x) =~= trim(s, t).push((t, x)), sorted(trim(s, t)), at(trim(s, t), t.0 - 1) == at(s, t.0 - 1)
{
    let m = trim(s, t);
    let k = m.len() as int;
    assert(cut(s, t.0 - 1, k)) by {
        assert forall|i: int| 0 <= i < k implies (#[trigger] s[i]).0.0 <= t.0 - 1 by { if k == s.len() { if i < k - 1 { assert(s[i].0.0 < s[k - 1].0.0); } } else { assert(s[i].0.0 < s[k].0.0); } }
    }
    cut_is(s, t.0 - 1, k);
    assert(cut(m, t.0 - 1, k)) by { assert forall|i: int| 0 <= i < k implies (#[trigger] m[i]).0.0 <= t.0 - 1 by { assert(m[i] == s[i]); } }
    cut_is(m, t.0 - 1, k);
    assert forall|i: int| 0 <= i < k implies #[trigger] m[i] == s[i] by {}
    res_prefix(m, s, k);
}
pub open spec fn trim(s: Seq<E>, t: Tick) -> Seq<E> { if s.len() > 0 && s.last().0 == t { s.drop_last() } else { s } }
/// `f` continues `s` from position k on with `head` in front that resolves like s[..k]: from `t` on both agree
pub proof fn headed(s: Seq<E>, k: int, f: Seq<E>, h: int, t: int, u: int)
    requires sorted(s), sorted(f), 0 <= k <= s.len(), 0 <= h <= 1, f.len() == h + s.len() - k, t <= u,
        forall|i: int| 0 <= i < h ==> (#[trigger] f[i]).0.0 <= t, forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).0.0 <= t,
        res(f, h) == res(s, k), forall|i: int| 0 <= i < s.len() - k ==> #[trigger] f[h + i] == s[k + i],
    ensures at(f, u) == at(s, u)
{
    count_cut(s, u);
    let q = count(s, u);
    assert(q >= k) by { if q < k { assert(s[q].0.0 > u); } }
    let g = h + (q - k);
    assert(cut(f, u, g)) by {
        assert forall|i: int| 0 <= i < g implies (#[trigger] f[i]).0.0 <= u by { if i >= h { assert(f[h + (i - h)] == s[k + (i - h)]); } }
        assert forall|i: int| g <= i < f.len() implies (#[trigger] f[i]).0.0 > u by { assert(f[h + (i - h)] == s[k + (i - h)]); }
    }
    cut_is(f, u, g);
    assert forall|i: int| 0 <= i < q - k implies expl(#[trigger] f[h + i].1) == expl(s[k + i].1) by { assert(f[h + i] == s[k + i]); }
    res_suffix(f, h, s, k, q - k);
}
impl ConfirmedHistory<Val> {
//@@ fn ConfirmedHistory::insert_assume_sorted
//@@ closures: is_some_and
//@@ rename: prev == & state => vx_eq(prev, &state) ;; unsafe fn => fn ;; debug_assert ! ( self . buffer . back ( ) . is_none_or ( | ( newest_tick , _ ) | tick >= * newest_tick ) , "insert_assume_sorted called with out-of-order tick" ) ; =>
//@@ spec:
//@@ | requires old(self).wf(), old(self).buffer@.len() > 0 ==> old(self).buffer@.last().0.0 <= tick.0
//@@ | ensures final(self).recorded(*old(self), tick.0 as int, state), final(self).buffer@.last().0 == tick
//@@ before "let entry": proof { put_last(old(self).buffer@, tick, ConfirmedHistoryState::SameAsPrecedent); assert(self.buffer@ =~= trim(old(self).buffer@, tick)); }
//@@ before "self\.buffer\.push_back": proof { let x = entry; let s = old(self).buffer@; put_last(s, tick, x); put_sorted(s, tick, x); assert(put(s, tick, x)[count(s, tick.0 - 1)].0.0 == tick.0); assert forall|u: int| #[trigger] at(put(s, tick, x), u) == (if u < tick.0 || changes(s, tick.0 as int, u) { at(s, u) } else { Some(state) }) by { if u < tick.0 { put_before(s, tick, x, u); } else { put_from(s, tick, x, u); } } }
//@@ end
//@@ fn ConfirmedHistory::insert_present_assume_sorted
//@@ rename: unsafe fn => fn
//@@ spec:
//@@ | requires old(self).wf(), old(self).buffer@.len() > 0 ==> old(self).buffer@.last().0.0 <= tick.0
//@@ | ensures final(self).recorded(*old(self), tick.0 as int, HistoryState::Updated(value)), final(self).buffer@.last().0 == tick
//@@ end
//@@ fn ConfirmedHistory::materialize_front_if_same_as_precedent
//@@ spec:
//@@ | ensures final(self).buffer@ == (if old(self).buffer@.len() > 0 && expl(old(self).buffer@[0].1) is None { old(self).buffer@.update(0, (old(self).buffer@[0].0, ConfirmedHistoryState::Explicit(state))) } else { old(self).buffer@ })
//@@ end
#[verifier::spinoff_prover]
//@@ fn ConfirmedHistory::pop_present
//@@ closures: and_then is_some_and
//@@ rename: . cloned ( ) => .vx_cloned()
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures final(self).wf(), final(self).buffer@.len() == (if old(self).buffer@.len() > 0 { old(self).buffer@.len() - 1 } else { 0 }),
//@@ |   forall|i: int| 0 <= i < final(self).buffer@.len() ==> (#[trigger] final(self).buffer@[i]).0 == old(self).buffer@[i + 1].0,
//@@ |   old(self).buffer@.len() > 0 ==> r == (match old(self).buffer@[0].1 { ConfirmedHistoryState::Explicit(HistoryState::Updated(v)) => Some((old(self).buffer@[0].0, v)), _ => None }),
//@@ |   old(self).buffer@.len() == 0 ==> r is None,
//@@ |   old(self).buffer@.len() > 1 ==> forall|u: int| u >= old(self).buffer@[1].0.0 ==> #[trigger] final(self).state(u) == old(self).state(u)
//@@ after "let popped =": let ghost s = old(self).buffer@; let ghost m = self.buffer@; proof { if s.len() > 0 {
//@@ |   assert(m =~= s.skip(1));
//@@ |   if m.len() > 0 {
//@@ |     let f = if expl(m[0].1) is None && popped_state is Some { m.update(0, (m[0].0, ConfirmedHistoryState::Explicit(popped_state->Some_0))) } else { m };
//@@ |     assert(res(s, 1) == expl(s[0].1)) by { assert(res(s, 0) is None); }
//@@ |     assert(res(s, 2) == res(f, 1)) by { assert(s[1] == m[0]); assert(res(f, 0) is None); }
//@@ |     assert(sorted(f));
//@@ |     assert forall|u: int| u >= s[1].0.0 implies #[trigger] at(f, u) == at(s, u) by { assert forall|i: int| 0 <= i < s.len() - 2 implies #[trigger] f[1 + i] == s[2 + i] by {} assert(s[0].0.0 < s[1].0.0); headed(s, 2, f, 1, s[1].0.0 as int, u); }
//@@ |   } } }
//@@ end
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
//@@ fn ConfirmedHistory::clear_until_tick
//@@ rename: partition_point ( | ( buffer_tick , _ ) | buffer_tick < & tick ) => vx_count_lt(tick) ;; partition_point ( | ( buffer_tick , _ ) | buffer_tick <= & tick ) => vx_count_le(tick) ;; . cloned ( ) => .vx_cloned()
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures final(self).wf(), forall|u: int| u >= tick.0 ==> #[trigger] final(self).state(u) == old(self).state(u),
//@@ |   final(self).buffer@.len() > 0 ==> final(self).buffer@[0].0.0 >= tick.0, old(self).state(tick.0 as int) is Some ==> final(self).buffer@.len() > 0 && final(self).buffer@[0].0 == tick
//@@ before "if partition > 0": proof { let s = self.buffer@; let k = partition as int; assert(s.take(0) + s.skip(k) =~= s.skip(k)); assert(s.skip(0) =~= s); cut_is(s, tick.0 - 1, k); cut_ok(s, tick, k, state_at_cut); }
//@@ end
}
/// what clearing up to `t` leaves
pub open spec fn kept(s: Seq<E>, t: Tick, k: int, sc: Option<HS>) -> Seq<E> {
    let m = s.skip(k);
    match sc {
        Some(x) => if m.len() > 0 && m[0].0.0 == t.0 { if expl(m[0].1) is None { m.update(0, (m[0].0, ConfirmedHistoryState::Explicit(x))) } else { m } } else { seq![(t, ConfirmedHistoryState::Explicit(x))] + m },
        None => m,
    }
}
pub proof fn cut_ok(s: Seq<E>, tick: Tick, k: int, sc: Option<HS>)
    requires sorted(s), cut(s, tick.0 - 1, k), sc == at(s, tick.0 as int)
    ensures sorted(kept(s, tick, k, sc)), forall|u: int| u >= tick.0 ==> #[trigger] at(kept(s, tick, k, sc), u) == at(s, u), sorted(s.skip(k)), forall|i: int| 0 <= i < s.len() - k ==> (#[trigger] s.skip(k)[i]).0.0 >= tick.0
{
    let t = tick.0 as int; let m = s.skip(k); let f = kept(s, tick, k, sc);
    let hit = k < s.len() && s[k].0.0 == t;
    let q = if hit { k + 1 } else { k };
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] m[i] == s[k + i] by {}
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies (#[trigger] m[i]).0.0 < (#[trigger] m[j]).0.0 by { assert(s[k + i].0.0 < s[k + j].0.0); }
    assert(cut(s, t, q)) by { assert forall|i: int| q <= i < s.len() implies (#[trigger] s[i]).0.0 > t by { if i > k { assert(s[k].0.0 < s[i].0.0); } } }
    cut_is(s, t, q);
    match sc {
        Some(x) => {
            if !hit {
                assert forall|i: int, j: int| 0 <= i < j < f.len() implies (#[trigger] f[i]).0.0 < (#[trigger] f[j]).0.0 by { assert(f[j] == m[j - 1]); if i > 0 { assert(f[i] == m[i - 1]); } else { assert(s[k + (j - 1)].0.0 > t); } }
            }
            assert(res(f, 1) == Some(x)) by { assert(res(f, 0) is None); if hit { assert(expl(s[k].1) is Some ==> res(s, k + 1) == expl(s[k].1)); } }
            assert forall|u: int| u >= t implies #[trigger] at(f, u) == at(s, u) by { assert forall|i: int| 0 <= i < s.len() - q implies #[trigger] f[1 + i] == s[q + i] by { if hit { assert(f[1 + i] == m[1 + i]); } else { assert(f[1 + i] == m[i]); } } headed(s, q, f, 1, t, u); }
        }
        None => {
            assert(res(s, k) is None) by { if res(s, k) is Some { grow(s, k, q); } }
            assert(res(m, 0) is None);
            assert forall|u: int| u >= t implies #[trigger] at(m, u) == at(s, u) by { assert forall|i: int| 0 <= i < s.len() - k implies #[trigger] m[0 + i] == s[k + i] by {} headed(s, k, m, 0, t, u); }
        }
    }
}
pub trait VxCloned { type T; spec fn sp(self) -> Option<Self::T>; fn vx_cloned(self) -> (r: Option<Self::T>) ensures r == self.sp(); }
impl<'a> VxCloned for Option<&'a HistoryState<Val>> { type T = HS; open spec fn sp(self) -> Option<HS> { match self { Some(x) => Some(*x), None => None } } #[verifier::external_body] fn vx_cloned(self) -> (r: Option<HS>) { unimplemented!() } }

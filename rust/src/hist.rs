//! C21/C22: histories of past and of authoritative states, against a naive timeline.
use crate::{Src, natives};
use lightyear_core::confirmed_history::ConfirmedHistory;
use lightyear_core::history_buffer::{HistoryBuffer, HistoryState};
use lightyear_core::tick::Tick;

type St = Option<u8>; // None: removed
fn hs(x: St) -> HistoryState<u8> { match x { Some(v) => HistoryState::Updated(v), None => HistoryState::Removed } }
fn st(x: &HistoryState<u8>) -> St { match x { HistoryState::Updated(v) => Some(*v), HistoryState::Removed => None } }
fn val(s: &mut impl Src) -> St { if s.range(0, 3) == 0 { None } else { Some(s.range(0, 3) as u8) } }

const W: u64 = 24;
/// naive timeline: the state at every tick of a small window starting at `base`
fn check_h(h: &HistoryBuffer<u8>, m: &[(u32, St)], base: u32) {
    let at = |t: u32| m.iter().rev().find(|e| e.0 <= t).map(|e| e.1);
    assert!(h.len() == m.len() && h.is_empty() == m.is_empty(), "number of recorded states");
    for i in 0..W as u32 + 4 {
        let t = base.saturating_add(i);
        let want = at(t);
        assert!(h.get_state(Tick(t)).map(st) == want, "state at a tick");
        assert!(h.get(Tick(t)).copied() == want.flatten(), "value at a tick");
    }
    assert!(h.oldest().map(|(t, x)| (t.0, st(x))) == m.first().copied());
    assert!(h.most_recent().map(|(t, x)| (t.0, st(x))) == m.last().copied());
    assert!(h.peek().is_some() == !m.is_empty());
    for (i, e) in m.iter().enumerate() { assert!(h.get_nth(i).map(|(t, x)| (t.0, st(x))) == Some(*e)); }
    assert!(h.into_iter().map(|(t, v)| (t.0, *v)).collect::<Vec<_>>() == m.iter().filter_map(|e| e.1.map(|v| (e.0, v))).collect::<Vec<_>>(), "iteration yields the present values in order");
}

fn probe_c(h: &ConfirmedHistory<u8>, t: u32) -> Option<St> { h.get_state_at_or_before(Tick(t)).map(st) }
/// entries: (tick, None = unchanged marker)
fn resolve(m: &[(u32, Option<St>)], t: u32) -> Option<St> { m.iter().rev().filter(|e| e.0 <= t).find_map(|e| e.1) }
fn check_c(h: &ConfirmedHistory<u8>, m: &[(u32, Option<St>)], base: u32) {
    assert!(h.len() == m.len() && h.is_empty() == m.is_empty(), "number of recorded entries");
    for i in 0..W as u32 + 4 {
        let t = base.saturating_add(i);
        let want = resolve(m, t);
        assert!(probe_c(h, t) == want, "authoritative state at a tick");
        assert!(h.get_present(Tick(t)).copied() == want.flatten(), "authoritative value at a tick");
        let here = m.iter().any(|e| e.0 == t);
        assert!(h.get_state_at(Tick(t)).map(st) == if here { want } else { None }, "state confirmed exactly at a tick");
    }
    for (i, e) in m.iter().enumerate() {
        assert!(h.get_nth_tick(i) == Some(Tick(e.0)));
        let w = m[..=i].iter().rev().find_map(|e| e.1);
        assert!(h.get_nth_state(i).map(|(t, x)| (t.0, st(x))) == w.map(|x| (e.0, x)), "n-th state");
        assert!(h.get_nth_present(i).map(|(t, x)| (t.0, *x)) == w.flatten().map(|x| (e.0, x)), "n-th value");
    }
    assert!(h.get_nth_tick(m.len()).is_none() && h.get_nth_state(m.len()).is_none());
    assert!(h.start_present().map(|(t, v)| (t.0, *v)) == m.first().and_then(|e| e.1.flatten().map(|v| (e.0, v))));
    assert!(h.newest_present().map(|(t, v)| (t.0, *v)) == m.last().and_then(|e| resolve(m, e.0).flatten().map(|v| (e.0, v))));
    let want: Vec<(u32, u8)> = m.iter().filter_map(|e| resolve(m, e.0).flatten().map(|v| (e.0, v))).collect();
    assert!(h.into_iter().map(|(t, v)| (t.0, *v)).collect::<Vec<_>>() == want, "iteration yields the present values in order");
}

natives! {
    fn c21_history(s) {
        let mut h = HistoryBuffer::<u8>::default();
        let mut m: Vec<(u32, St)> = vec![];
        let mut base = match s.range(0, 3) { 0 => 0, 1 => u32::MAX - 40, 2 => u32::MAX / 2 - 10, _ => s.u32().min(u32::MAX - 40) };
        let n = s.range(1, 16);
        for _ in 0..n {
            let last = m.last().map(|e| e.0);
            let lo = last.map_or(0, |l| (l - base) as u64);
            let t = base + s.range(0, W) as u32;
            match s.range(0, 12) {
                0..=4 => {
                    // recorded in tick order
                    let t = base + s.range(lo.min(W), W) as u32;
                    if last.is_some_and(|l| l > t) { continue; }
                    let v = val(s);
                    match (s.range(0, 2), v) {
                        (0, Some(x)) => h.add_update(Tick(t), x),
                        (0, None) => h.add_remove(Tick(t)),
                        (1, _) => h.add(Tick(t), v),
                        _ => h.add_state(Tick(t), hs(v)),
                    }
                    if last == Some(t) { m.pop(); }
                    m.push((t, v));
                }
                5 => {
                    h.clear_until_tick(Tick(t));
                    let a = m.iter().rev().find(|e| e.0 <= t).copied();
                    if let Some(a) = a { m.retain(|e| e.0 > t); m.insert(0, (t, a.1)); }
                }
                6 => {
                    let r = h.pop_until_tick(Tick(t));
                    let a = m.iter().rev().find(|e| e.0 <= t).copied();
                    assert!(r.as_ref().map(st) == a.map(|a| a.1), "pop_until_tick returns the state at that tick");
                    if let Some(a) = a { m.retain(|e| e.0 > t); m.insert(0, (t, a.1)); }
                }
                7 => { h.clear_after_tick(Tick(t)); m.retain(|e| e.0 <= t); }
                8 => {
                    let r = h.clear_except_tick(Tick(t));
                    let a = m.iter().rev().find(|e| e.0 <= t).copied();
                    assert!(r.as_ref().map(st) == a.map(|a| a.1), "clear_except_tick returns the state at that tick");
                    m.clear();
                    if let Some(a) = a { m.push((t, a.1)); }
                }
                9 => {
                    let r = h.pop();
                    assert!(r.map(|(t, x)| (t.0, st(&x))) == if m.is_empty() { None } else { Some(m.remove(0)) }, "pop removes the oldest");
                }
                10 => {
                    let r = h.second_most_recent(Tick(t)).copied();
                    let want = match m.last() {
                        None => None,
                        Some(l) if l.0 < t => l.1,
                        _ if m.len() < 2 => None,
                        _ => m[m.len() - 2].1,
                    };
                    assert!(r == want, "second most recent");
                }
                11 => {
                    // a timeline resync moves every recorded tick alike
                    let d = s.range(0, 40) as i32 - 20;
                    let ok = m.iter().all(|e| (e.0 as i64 + d as i64) >= 0 && e.0 as i64 + d as i64 <= u32::MAX as i64) && base as i64 + d as i64 >= 0 && base as i64 + d as i64 + 40 <= u32::MAX as i64;
                    if !ok { continue; }
                    h.update_ticks(d);
                    for e in m.iter_mut() { e.0 = (e.0 as i64 + d as i64) as u32; }
                    base = (base as i64 + d as i64) as u32;
                }
                _ => {
                    if let Some(l) = last { if t >= l { h.set_most_recent_tick(Tick(t)); m.last_mut().unwrap().0 = t; } }
                    else { h.set_most_recent_tick(Tick(t)); }
                    if s.range(0, 9) == 0 { h.clear(); m.clear(); }
                }
            }
            check_h(&h, &m, base);
        }
        let want: Vec<(u32, u8)> = m.iter().filter_map(|e| e.1.map(|v| (e.0, v))).collect();
        assert!(h.into_iter().map(|(t, v)| (t.0, v)).collect::<Vec<_>>() == want, "owned iteration yields the present values in order");
    }
    fn c22_confirmed(s) {
        let mut h = ConfirmedHistory::<u8>::default();
        let mut m: Vec<(u32, Option<St>)> = vec![];
        let mut base = match s.range(0, 3) { 0 => 0, 1 => u32::MAX - 40, 2 => u32::MAX / 2 - 10, _ => s.u32().min(u32::MAX - 40) };
        let n = s.range(1, 16);
        for _ in 0..n {
            let t = base + s.range(0, W) as u32;
            let before: Vec<Option<St>> = (0..W as u32 + 4).map(|i| probe_c(&h, base.saturating_add(i))).collect();
            let at = |x: u32| before[(x - base) as usize];
            // next explicit entry after t
            let next = |m: &[(u32, Option<St>)]| m.iter().find(|e| e.0 > t && e.1.is_some()).map(|e| e.0);
            let put = |m: &mut Vec<(u32, Option<St>)>, t: u32, x: Option<St>| match m.binary_search_by_key(&t, |e| e.0) { Ok(i) => m[i].1 = x, Err(i) => m.insert(i, (t, x)) };
            match s.range(0, 11) {
                0..=3 => {
                    let v = val(s);
                    let until = next(&m);
                    let prev = resolve(&m.iter().copied().filter(|e| e.0 < t).collect::<Vec<_>>(), t);
                    let explicit = match (s.range(0, 3), v) {
                        (0, Some(x)) => { h.insert_present(Tick(t), x); false }
                        (0, None) => { h.insert_removed(Tick(t)); false }
                        (1, _) => { h.insert_explicit(Tick(t), hs(v)); true }
                        (2, Some(x)) => { h.insert_present_explicit(Tick(t), x); true }
                        _ => { h.insert(Tick(t), hs(v)); false }
                    };
                    put(&mut m, t, if !explicit && prev == Some(v) { None } else { Some(v) });
                    // the contract: v holds from t to the next explicit entry, nothing else moves
                    for i in 0..W as u32 + 4 {
                        let u = base.saturating_add(i);
                        let want = if u >= t && until.is_none_or(|n| u < n) { Some(v) } else { at(u) };
                        assert!(probe_c(&h, u) == want, "a recorded state holds from its tick until the next recorded one, nothing else changes");
                    }
                }
                4 | 5 => {
                    // in-order fast path
                    if m.last().is_some_and(|e| e.0 > t) { continue; }
                    let v = val(s);
                    let prev = resolve(&m.iter().copied().filter(|e| e.0 < t).collect::<Vec<_>>(), t);
                    // SAFETY: the documented precondition holds
                    match (s.bool(), v) {
                        (true, Some(x)) => unsafe { h.insert_present_assume_sorted(Tick(t), x) },
                        _ => unsafe { h.insert_assume_sorted(Tick(t), hs(v)) },
                    }
                    put(&mut m, t, if prev == Some(v) { None } else { Some(v) });
                    for i in 0..W as u32 + 4 {
                        let u = base.saturating_add(i);
                        assert!(probe_c(&h, u) == if u >= t { Some(v) } else { at(u) }, "in-order insert");
                    }
                }
                6 => {
                    let here = m.iter().any(|e| e.0 == t) && at(t).is_some();
                    let prev = resolve(&m.iter().copied().filter(|e| e.0 < t).collect::<Vec<_>>(), t);
                    let r = h.add_unchanged(Tick(t));
                    assert!(r == (!here && prev.is_some()), "add_unchanged records iff there is a state to repeat and none here");
                    if r { put(&mut m, t, None); }
                    for i in 0..W as u32 + 4 { let u = base.saturating_add(i); assert!(probe_c(&h, u) == at(u), "an unchanged marker changes no state"); }
                }
                7 => {
                    let last = m.last().map(|e| e.0);
                    let r = h.push_unchanged(Tick(t));
                    let want = last.is_some_and(|l| t > l) && at(t).flatten().is_some();
                    assert!(r == if want { last.map(Tick) } else { None }, "push_unchanged");
                    if want { put(&mut m, t, None); }
                    for i in 0..W as u32 + 4 { let u = base.saturating_add(i); assert!(probe_c(&h, u) == at(u), "an unchanged marker changes no state"); }
                }
                8 => {
                    h.clear_until_tick(Tick(t));
                    let a = resolve(&m, t);
                    m.retain(|e| e.0 >= t);
                    if let Some(a) = a {
                        if m.first().is_some_and(|e| e.0 == t) { if m[0].1.is_none() { m[0].1 = Some(a); } } else { m.insert(0, (t, Some(a))); }
                    }
                    for i in 0..W as u32 + 4 { let u = base.saturating_add(i); if u >= t { assert!(probe_c(&h, u) == at(u), "clearing the past changes no later state"); } }
                }
                9 => {
                    let r = h.pop_present().map(|(t, v)| (t.0, v));
                    if m.is_empty() { assert!(r.is_none()); } else {
                        let e = m.remove(0);
                        assert!(r == e.1.flatten().map(|v| (e.0, v)), "pop returns the oldest present value");
                        if let (Some(x), Some(f)) = (e.1, m.first_mut()) { if f.1.is_none() { f.1 = Some(x); } }
                        if let Some(f) = m.first() { let f = f.0; for i in 0..W as u32 + 4 { let u = base.saturating_add(i); if u >= f { assert!(probe_c(&h, u) == at(u), "popping changes no later state"); } } }
                    }
                }
                10 => {
                    let d = s.range(0, 40) as i32 - 20;
                    let ok = m.iter().all(|e| (e.0 as i64 + d as i64) >= 0 && e.0 as i64 + d as i64 <= u32::MAX as i64) && base as i64 + d as i64 >= 0 && base as i64 + d as i64 + 40 <= u32::MAX as i64;
                    if !ok { continue; }
                    h.update_ticks(d);
                    for e in m.iter_mut() { e.0 = (e.0 as i64 + d as i64) as u32; }
                    base = (base as i64 + d as i64) as u32;
                }
                _ => { if s.range(0, 5) == 0 { h.clear(); m.clear(); } }
            }
            check_c(&h, &m, base);
        }
        let want: Vec<(u32, u8)> = m.iter().filter_map(|e| resolve(&m, e.0).flatten().map(|v| (e.0, v))).collect();
        assert!(h.into_iter().map(|(t, v)| (t.0, v)).collect::<Vec<_>>() == want, "owned iteration yields the present values in order");
    }
}

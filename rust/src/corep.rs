//! S04-S06: wrapping ids, ticks, tick instants.
use crate::{Src, harnesses};
use fixed::types::{I32F32, U0F16, U32F32};
use lightyear_core::tick::{AtomicTick, Tick};
use lightyear_core::time::{Overstep, PositiveTickDelta, TickDelta, TickInstant};
use lightyear_utils::wrapping_id::{WrappedId, wrapping_diff};

lightyear_utils::wrapping_id!(TestSeq);

harnesses! { corep;
    // ---- S04 -------------------------------------------------------------
    fn s04_diff(s) {
        let (a, b) = (s.u16(), s.u16());
        let d = wrapping_diff(a, b);
        // the unique representative of b - a (mod 2^16) in [-2^15, 2^15)
        let exact = (b as i32 - a as i32).rem_euclid(65536);
        let want = if exact >= 32768 { exact - 65536 } else { exact };
        assert!(d as i32 == want, "wrapping_diff");
        assert!(a.wrapping_add(d as u16) == b);
        if d != i16::MIN {
            assert!(wrapping_diff(b, a) == -d, "antisymmetric");
        }
    }
    fn s04_window(s) {
        // two ids less than half the space apart, on either side of the wrap
        let a = s.u16();
        let k = s.range(1, 32767) as u16;
        let b = a.wrapping_add(k);
        let (x, y) = (TestSeq(a), TestSeq(b));
        assert!(wrapping_diff(a, b) == k as i16);
        assert!(y > x && x < y && !(x > y) && !(y < x) && x != y, "later id compares newer across the wrap");
        assert!(y - x == k as i16 && x - y == -(k as i16));
        assert!(x <= y && y >= x);
    }
    fn s04_order_total(s) {
        let (a, b) = (TestSeq(s.u16()), TestSeq(s.u16()));
        assert!((a == b) == (a.0 == b.0));
        assert!((a.partial_cmp(&b) == Some(core::cmp::Ordering::Equal)) == (a.0 == b.0));
        let d = b - a;
        assert!((a < b) == (d > 0));
        assert!((a > b) == (d < 0));
    }
    fn s04_transitive(s) {
        // within one half window the order is a strict linear order
        let base = s.u16();
        let (i, j, k) = (s.range(0, 32767) as u16, s.range(0, 32767) as u16, s.range(0, 32767) as u16);
        let (x, y, z) = (TestSeq(base.wrapping_add(i)), TestSeq(base.wrapping_add(j)), TestSeq(base.wrapping_add(k)));
        assert!((x < y) == (i < j));
        if x < y && y < z { assert!(x < z); }
    }
    fn s04_ops(s) {
        let a = TestSeq(s.u16());
        let n = s.u16();
        let m = s.i16();
        assert!((a - n).0 == a.0.wrapping_sub(n), "Sub<u16>");
        assert!((a + TestSeq(n)).0 == a.0.wrapping_add(n), "Add");
        assert!((a + m).0 == a.0.wrapping_add(m as u16), "Add<i16>");
        assert!((a + m) - a == m, "add then subtract");
        let mut c = a;
        c += n;
        assert!(c.0 == a.0.wrapping_add(n), "AddAssign");
        assert!(TestSeq::from(n).0 == n && *a == a.0);
        if !S::SYM {
            let t = s.range(1, 65536) as usize;
            assert!(a.rem(t) == (a.0 as usize) % t, "rem");
        }
    }
    // ---- S05 -------------------------------------------------------------
    fn s05_sub(s) {
        let (a, b) = (Tick(s.u32()), Tick(s.u32()));
        let d = a.0 as i64 - b.0 as i64;
        let want = if d > i32::MAX as i64 { i32::MAX } else if d < i32::MIN as i64 { i32::MIN } else { d as i32 };
        assert!(a - b == want, "tick difference saturates");
        assert!((a > b) == (a.0 > b.0) && (a < b) == (a.0 < b.0) && (a == b) == (a.0 == b.0), "ticks are ordered numerically");
        assert!((a - b > 0) == (a > b) && (a - b < 0) == (a < b));
        assert!(a.max(b).0 == a.0.max(b.0) && a.min(b).0 == a.0.min(b.0));
    }
    fn s05_add(s) {
        let a = Tick(s.u32());
        let n = s.u32();
        let m = s.i32();
        let up = (a.0 as u64 + n as u64).min(u32::MAX as u64) as u32;
        assert!((a + Tick(n)).0 == up, "Tick + Tick saturates");
        let mut c = a;
        c += n;
        assert!(c.0 == up, "Tick += u32 saturates");
        let down = (a.0 as i64 - n as i64).max(0) as u32;
        assert!((a - n).0 == down, "Tick - u32 saturates at zero");
        let w = (a.0 as i64 + m as i64).clamp(0, u32::MAX as i64) as u32;
        assert!((a + m).0 == w, "Tick + i32 saturates");
        assert!(Tick::from(n).0 == n && *a == a.0);
    }
    #[kani::unwind(4)]
    fn s05_atomic(s) {
        let (c, a, b) = (s.u32(), s.u32(), s.u32());
        let t = AtomicTick::from(c);
        assert!(t.get() == Tick(c));
        t.set_if_lower(Tick(a));
        assert!(t.get() == Tick(c.min(a)), "set_if_lower keeps the minimum");
        t.set_if_lower(Tick(b));
        assert!(t.get() == Tick(c.min(a).min(b)));
        let m = AtomicTick::new_max();
        m.set_if_lower(Tick(a));
        assert!(m.get() == Tick(a), "new_max accepts any first tick");
    }
    // ---- S06 -------------------------------------------------------------
    fn s06_instant_parts(s) {
        let bits = s.u64();
        let i = TickInstant { value: U32F32::from_bits(bits) };
        assert!(i.tick() == Tick((bits >> 32) as u32), "tick is the integer part");
        assert!(i.overstep().value() == U0F16::from_bits((bits >> 16) as u16), "overstep is the fraction");
        let t = Tick(s.u32());
        let o = Overstep::new(U0F16::from_bits(s.u16()));
        let x = TickInstant::from_tick_and_overstep(t, o);
        assert!(x.tick() == t && x.overstep().value() == o.value(), "from_tick_and_overstep inverse");
        assert!(x.value.to_bits() == ((t.0 as u64) << 32) | ((o.value().to_bits() as u64) << 16));
        let y = TickInstant::from(t);
        assert!(y.tick() == t && y.overstep().value() == U0F16::ZERO);
        assert!(TickInstant::zero().value.to_bits() == 0);
    }
    fn s06_instant_order(s) {
        let (a, b) = (s.u64(), s.u64());
        let (x, y) = (TickInstant { value: U32F32::from_bits(a) }, TickInstant { value: U32F32::from_bits(b) });
        assert!((x < y) == (a < b) && (x == y) == (a == b));
        if x.tick() < y.tick() { assert!(x < y, "order agrees with ticks"); }
        if x.tick() == y.tick() && x.overstep() < y.overstep() { assert!(x < y, "order agrees with overstep"); }
    }
    fn s06_delta_group(s) {
        let a = TickInstant { value: U32F32::from_bits(s.u64()) };
        let b = TickInstant { value: U32F32::from_bits(s.u64()) };
        let d = TickDelta::new(I32F32::from_bits(s.i64()));
        assert!(b + (a - b) == a, "b + (a - b) == a");
        assert!((a + d) - d == a, "add then subtract a delta");
        assert!((a + d) - a == d, "difference recovers the delta");
        assert!((a + d).value.to_bits() == a.value.to_bits().wrapping_add(d_bits(d) as u64), "instants move by exactly the delta");
        // sign of the difference when the distance is representable
        let diff = a.value.to_bits() as i128 - b.value.to_bits() as i128;
        if diff <= i64::MAX as i128 && diff >= i64::MIN as i128 {
            assert!((a - b).is_negative() == (diff < 0));
            assert!((a - b).is_positive() == (diff > 0));
        }
    }
    fn s06_delta_ops(s) {
        let (p, q) = (s.i64(), s.i64());
        let (d, e) = (TickDelta::new(I32F32::from_bits(p)), TickDelta::new(I32F32::from_bits(q)));
        assert!(d_bits(d + e) == p.wrapping_add(q));
        assert!(d_bits(d - e) == p.wrapping_sub(q));
        if p != i64::MIN {
            assert!(d_bits(-d) == -p, "negation");
            assert!(-(-d) == d);
        }
        assert!(d.tick_diff() == (p.unsigned_abs() >> 32) as u32, "tick_diff is |delta| integer part");
        assert!(d.overstep().value().to_bits() == (p.unsigned_abs() >> 16) as u16, "overstep is |delta| fraction");
        assert!(d.is_negative() == (p < 0) && d.is_positive() == (p > 0));
        let n = s.i32();
        assert!(d_bits(TickDelta::from_i32(n)) == (n as i64) << 32);
        assert!(d_bits(TickDelta::from(n)) == (n as i64) << 32);
        assert!(TickDelta::from_i32(n).to_i32() == n);
        assert!(d_bits(TickDelta::zero()) == 0);
    }
    fn s06_delta_round(s) {
        let p = s.i64();
        // representable after rounding
        s.assume(p < 0x7FFF_FFFF_8000_0000);
        let d = TickDelta::new(I32F32::from_bits(p));
        let r = d.to_i32() as i64;
        // nearest integer, halves away from zero
        let err = (r as i128) * (1i128 << 32) - p as i128;
        let half = 1i128 << 31;
        assert!(err >= -half && err <= half, "rounds to the closest integer");
        if err == half { assert!(p > 0); }
        if err == -half { assert!(p < 0); }
    }
    fn s06_conversions(s) {
        let p = s.i64();
        s.assume(p >= 0);
        let d = TickDelta::new(I32F32::from_bits(p));
        assert!(TickInstant::from(d).value.to_bits() == p as u64);
        assert!(PositiveTickDelta::from(d).value.to_bits() == p as u64);
        assert!(TickDelta::from(PositiveTickDelta::from(d)) == d);
        assert!(TickDelta::from(TickInstant::from(d)) == d);
        let t = Tick(s.u32());
        s.assume(t.0 <= i32::MAX as u32);
        assert!(TickDelta::from(t).tick_diff() == t.0);
    }
    fn s06_overstep(s) {
        let (p, q) = (s.u16(), s.u16());
        let (a, b) = (Overstep::new(U0F16::from_bits(p)), Overstep::new(U0F16::from_bits(q)));
        let mut c = a;
        c += b;
        assert!(c.value().to_bits() == p.saturating_add(q), "+= saturates below 1.0");
        let mut c = a;
        c -= b;
        assert!(c.value().to_bits() == p.saturating_sub(q), "-= saturates at 0");
        assert!((a < b) == (p < q));
        assert!(a.to_u8() == (p >> 8) as u8);
        let k = s.u8();
        assert!(Overstep::from_u8(k).to_u8() == k, "u8 quantisation is a retraction");
    }
    fn s06_mul(s) {
        let p = s.i32() as i64 * 65536 + s.u16() as i64;
        let q = s.u16();
        let d = TickDelta::new(I32F32::from_bits(p));
        let r = d_bits(d * U0F16::from_bits(q)) as i128;
        // exact product is p * q / 2^16 (in units of 2^-32)
        let exact = p as i128 * q as i128;
        assert!((r << 16) - exact <= 1 << 16 && exact - (r << 16) <= 1 << 16, "delta times a fraction is exact to one unit");
    }
}

#[cfg(not(kani))]
fn rel(a: f64, b: f64, tol: f64) -> bool {
    rel2(a, b, tol, 2e-9)
}
#[cfg(not(kani))]
fn rel2(a: f64, b: f64, tol: f64, abs: f64) -> bool {
    (a - b).abs() <= tol * (a.abs().max(b.abs())) + abs
}
crate::natives! {
    fn s06_durations(s) {
        use core::time::Duration;
        let td = Duration::from_nanos(if s.coin() { [16_666_667, 15_625_000, 100_000_000, 10_000_000, 1_000_000][s.below(5)] } else { s.range(1_000_000, 1_000_000_000) });
        let tds = td.as_secs_f64();
        // up to 2^20 ticks: magnitudes a session's round trips and buffers stay far below
        let lim = 1u64 << (32 + s.range(0, 20));
        let (a, b) = (s.range(0, lim), s.range(0, lim));
        let (x, y) = (TickInstant { value: U32F32::from_bits(a) }, TickInstant { value: U32F32::from_bits(b) });
        let f = |v: u64| v as f64 / 4294967296.0;
        let tol = 1e-6;
        assert!(rel(x.as_duration(td).as_secs_f64(), f(a) * tds, tol), "instant to duration");
        if a <= b { assert!(x.as_duration(td) <= y.as_duration(td), "monotone"); }
        let back = TickInstant::from_duration(x.as_duration(td), td);
        assert!(rel2(f(back.value.to_bits()), f(a), 2e-6, 3e-9 / tds), "duration and back");
        assert!(rel(x.as_time_delta(td).as_duration().unwrap().as_secs_f64(), f(a) * tds, tol));
        let dur = Duration::from_nanos(s.range(0, 1 << 38));
        let dur2 = Duration::from_nanos(s.range(0, 1 << 38));
        assert!(rel(f(TickInstant::from_duration(dur, td).value.to_bits()), dur.as_secs_f64() / tds, tol), "duration to instant");
        if dur <= dur2 { assert!(TickInstant::from_duration(dur, td) <= TickInstant::from_duration(dur2, td)); }
        // signed deltas
        let neg = s.coin();
        let p = if neg { -(a as i64) } else { a as i64 };
        let d = TickDelta::new(I32F32::from_bits(p));
        let g = |v: TickDelta| d_bits(v) as f64 / 4294967296.0;
        assert!(rel(d.to_f32() as f64, g(d), tol), "to_f32");
        if !neg { assert!(rel(d.to_duration(td).as_secs_f64(), f(a) * tds, tol), "delta to duration"); }
        assert!(rel(g(TickDelta::from_duration(dur, td)), dur.as_secs_f64() / tds, tol));
        let t = d.to_time_delta(td);
        if f(a) * tds > 3e-9 { assert!(t.is_positive() == !neg, "sign of a time delta"); }
        let abs = if t.is_positive() { t } else { -t };
        assert!(rel(abs.as_duration().unwrap().as_secs_f64(), f(a) * tds, tol), "delta to time delta");
        assert!(rel2(g(TickDelta::from_time_delta(t, td)), g(d), 2e-6, 3e-9 / tds), "time delta and back");
        let m = s.range(0, 4000) as f32 / 1000.0;
        assert!(rel(g(d * m), g(d) * m as f64, tol), "delta times a factor");
    }
}

fn d_bits(d: TickDelta) -> i64 {
    // bits of a delta through its public arithmetic: 0 + d as an instant offset
    (TickInstant::zero() + d).value.to_bits() as i64
}

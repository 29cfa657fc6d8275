/// core::time::Duration as a number (the unit does not matter)
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Duration(pub u64);
impl Duration {
    pub fn default() -> (r: Duration) ensures r.0 == 0 { Duration(0) }
    #[verifier::external_body]
    pub fn saturating_sub(self, rhs: Duration) -> (r: Duration) ensures r == since(self, rhs) { unimplemented!() }
}
impl PartialOrd for Duration {
    #[verifier::external_body]
    fn partial_cmp(&self, other: &Duration) -> Option<Ordering> { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Duration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Duration) -> Option<Ordering> { Some(if self.0 == other.0 { Ordering::Equal } else if self.0 < other.0 { Ordering::Less } else { Ordering::Greater }) }
}
pub open spec fn since(a: Duration, b: Duration) -> Duration { Duration((if a.0 >= b.0 { a.0 - b.0 } else { 0 }) as u64) }
/// touched after the given time, or never
pub open spec fn recent(last: Option<Duration>, t: Duration) -> bool { match last { Some(x) => x.0 > t.0, None => true } }

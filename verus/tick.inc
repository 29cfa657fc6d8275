// Tick: u32 with the derived (numeric) order
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Tick(pub u32);
impl PartialOrd for Tick {
    #[verifier::external_body]
    fn partial_cmp(&self, other: &Tick) -> Option<core::cmp::Ordering> { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Tick {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Tick) -> Option<core::cmp::Ordering> { Some(if self.0 == other.0 { core::cmp::Ordering::Equal } else if self.0 < other.0 { core::cmp::Ordering::Less } else { core::cmp::Ordering::Greater }) }
}

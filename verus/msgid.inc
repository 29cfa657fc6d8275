// MessageId: the wrapping_id! macro of crates/core/utils, expanded mechanically
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct MessageId(pub u16);
pub open spec fn diff(a: u16, b: u16) -> int { let d = (b - a) % 65536; if d < 32768 { d } else { d - 65536 } }
pub open spec fn fwd(a: MessageId, b: MessageId) -> int { (b.0 - a.0) % 65536 }
pub open spec fn older(a: MessageId, b: MessageId) -> bool { 1 <= fwd(a, b) < 32768 }
//@@ source crates/core/utils/src/wrapping_id.rs
pub broadcast proof fn cast_diff(x: u16)
    ensures #[trigger] (x as i16) as int == (if x < 32768 { x as int } else { x - 65536 })
{ assert(x < 32768 ==> (x as i16) as int == x as int) by (bit_vector); assert(x >= 32768 ==> (x as i16) as int == x as int - 65536) by (bit_vector); }
//@@ fn wrapping_diff
//@@ spec: ensures r == diff(a, b)
//@@ start: broadcast use cast_diff;
//@@ end
//@@ macro wrapping_id $struct_name=MessageId
impl core::ops::Sub for MessageId {
    type Output = i16;
//@@ fn Sub for MessageId::sub
//@@ start: broadcast use cast_diff;
//@@ end
}
impl vstd::std_specs::ops::SubSpecImpl for MessageId {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: MessageId) -> bool { true }
    open spec fn sub_spec(self, rhs: MessageId) -> i16 { diff(rhs.0, self.0) as i16 }
}
impl core::ops::AddAssign<u16> for MessageId {
//@@ fn AddAssign<u16> for MessageId::add_assign
//@@ end
}
impl vstd::std_specs::ops::AddAssignSpecImpl<u16> for MessageId {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, rhs: u16) -> bool { true }
    open spec fn add_assign_spec(&self, rhs: u16) -> &MessageId { &MessageId(((self.0 + rhs) % 65536) as u16) }
}
impl PartialOrd for MessageId {
//@@ fn PartialOrd for MessageId::partial_cmp
//@@ end
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for MessageId {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &MessageId) -> Option<core::cmp::Ordering> {
        let d = diff(self.0, other.0);
        Some(if d == 0 { core::cmp::Ordering::Equal } else if d > 0 { core::cmp::Ordering::Less } else { core::cmp::Ordering::Greater })
    }
}

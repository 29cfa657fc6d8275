/// core::time::Duration, uninterpreted
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { x: core::time::Duration }
//@@ include op.inc TRAIT=>Add SPECTRAIT=>AddSpecImpl METH=>add OBEYS=>obeys_add_spec REQ=>add_req SPEC=>add_spec LHS=>Duration RHS=>Duration OUT=>Duration FN=>dadd
//@@ include op.inc TRAIT=>Mul SPECTRAIT=>MulSpecImpl METH=>mul OBEYS=>obeys_mul_spec REQ=>mul_req SPEC=>mul_spec LHS=>Duration RHS=>u32 OUT=>Duration FN=>dmul
//@@ include op.inc TRAIT=>Div SPECTRAIT=>DivSpecImpl METH=>div OBEYS=>obeys_div_spec REQ=>div_req SPEC=>div_spec LHS=>Duration RHS=>u32 OUT=>Duration FN=>ddiv
pub uninterp spec fn dscale(d: Duration, f: F32) -> Duration;
/// rounded up to whole ticks, saturated
pub uninterp spec fn whole_ticks(d: Duration, tick: Duration) -> u16;
pub uninterp spec fn millis(d: Duration) -> F32;
impl Duration {
    #[verifier::external_body]
    pub fn mul_f32(self, f: F32) -> (r: Duration) ensures r == dscale(self, f) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_whole_ticks(self, tick: Duration) -> (r: u16) ensures r == whole_ticks(self, tick) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_millis(self) -> (r: F32) ensures r == millis(self) { unimplemented!() }
}

/// f32 with uninterpreted arithmetic and comparison: what is proved holds for IEEE arithmetic
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F32 { x: f32 }
//@@ include op.inc TRAIT=>Add SPECTRAIT=>AddSpecImpl METH=>add OBEYS=>obeys_add_spec REQ=>add_req SPEC=>add_spec LHS=>F32 RHS=>F32 OUT=>F32 FN=>fadd
//@@ include op.inc TRAIT=>Sub SPECTRAIT=>SubSpecImpl METH=>sub OBEYS=>obeys_sub_spec REQ=>sub_req SPEC=>sub_spec LHS=>F32 RHS=>F32 OUT=>F32 FN=>fsub
//@@ include op.inc TRAIT=>Mul SPECTRAIT=>MulSpecImpl METH=>mul OBEYS=>obeys_mul_spec REQ=>mul_req SPEC=>mul_spec LHS=>F32 RHS=>F32 OUT=>F32 FN=>fmul
//@@ include op.inc TRAIT=>Div SPECTRAIT=>DivSpecImpl METH=>div OBEYS=>obeys_div_spec REQ=>div_req SPEC=>div_spec LHS=>F32 RHS=>F32 OUT=>F32 FN=>fdiv
pub uninterp spec fn fcmp(a: F32, b: F32) -> Option<Ordering>;
pub uninterp spec fn feq(a: F32, b: F32) -> bool;
impl PartialEq for F32 { #[verifier::external_body] fn eq(&self, o: &F32) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for F32 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &F32) -> bool { feq(*self, *o) }
}
impl PartialOrd for F32 { #[verifier::external_body] fn partial_cmp(&self, o: &F32) -> Option<Ordering> { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for F32 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &F32) -> Option<Ordering> { fcmp(*self, *o) }
}
pub open spec fn fgt(a: F32, b: F32) -> bool { fcmp(a, b) == Some(Ordering::Greater) }
/// the literal n/1000
pub uninterp spec fn flit(n: int) -> F32;
pub uninterp spec fn fabs(a: F32) -> F32;
pub uninterp spec fn fsign(a: F32) -> bool;
pub uninterp spec fn fclamp(a: F32, l: F32, h: F32) -> F32;
pub uninterp spec fn fmax(a: F32, b: F32) -> F32;
impl F32 {
    #[verifier::external_body]
    pub fn lit(n: u64) -> (r: F32) ensures r == flit(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(self) -> (r: F32) ensures r == fabs(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_sign_positive(self) -> (r: bool) ensures r == fsign(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn clamp(self, l: F32, h: F32) -> (r: F32) ensures r == fclamp(self, l, h) { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: F32) -> (r: F32) ensures r == fmax(self, o) { unimplemented!() }
}

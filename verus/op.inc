impl core::ops::TRAIT<RHS> for LHS { type Output = OUT; #[verifier::external_body] fn METH(self, o: RHS) -> OUT { unimplemented!() } }
impl vstd::std_specs::ops::SPECTRAIT<RHS> for LHS {
    open spec fn OBEYS() -> bool { true }
    open spec fn REQ(self, o: RHS) -> bool { true }
    open spec fn SPEC(self, o: RHS) -> OUT { FN(self, o) }
}
pub uninterp spec fn FN(a: LHS, b: RHS) -> OUT;

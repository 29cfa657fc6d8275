// Stand-in for alloc's BTreeMap with integer keys: assumed contracts of the container.
#[verifier::external_body]
#[verifier::accept_recursive_types(W)]
pub struct BTreeMap<W> { m: std::collections::BTreeMap<usize, W> }
impl<W> View for BTreeMap<W> { type V = Map<usize, W>; uninterp spec fn view(&self) -> Map<usize, W>; }
impl<W> BTreeMap<W> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<usize, W>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &usize) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: usize, v: W) -> (r: Option<W>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_first(&mut self) -> (r: Option<(usize, W)>)
        ensures match r {
            Some((k, v)) => old(self)@.dom().contains(k) && v == old(self)@[k] && final(self)@ == old(self)@.remove(k) && forall|j: usize| #[trigger] old(self)@.dom().contains(j) ==> k <= j,
            None => old(self)@ == Map::<usize, W>::empty() && final(self)@ == old(self)@,
        } { unimplemented!() }
}

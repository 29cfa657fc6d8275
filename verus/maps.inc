// Stand-ins for bevy_platform's HashMap/HashSet: assumed contracts of the container (the view is a mathematical
// map/set; key equality is structural equality).
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(W)]
pub struct HashMap<K, W> { m: std::collections::HashMap<K, W> }
impl<K, W> View for HashMap<K, W> { type V = Map<K, W>; uninterp spec fn view(&self) -> Map<K, W>; }
impl<K, W> HashMap<K, W> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K, W>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, W>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == self@.dom().is_empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, W>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    pub open spec fn spec_get(&self, k: &K) -> Option<&W> { if self@.dom().contains(*k) { Some(&self@[*k]) } else { None } }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(spec_get)]
    pub fn get(&self, k: &K) -> (r: Option<&W>)
        ensures match r { Some(v) => self@.dom().contains(*k) && *v == self@[*k], None => !self@.dom().contains(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut W>)
        ensures match r {
            Some(v) => old(self)@.dom().contains(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: W) -> (r: Option<W>)
        ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<W>)
        ensures final(self)@ == old(self)@.remove(*k), !old(self)@.dom().contains(*k) ==> final(self)@ == old(self)@, r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { m: std::collections::HashSet<K> }
impl<K> View for HashSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
impl<K> HashSet<K> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    pub open spec fn spec_contains(&self, k: &K) -> bool { self@.contains(*k) }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(spec_contains)]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), old(self)@.contains(k) ==> final(self)@ == old(self)@, r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), !old(self)@.contains(*k) ==> final(self)@ == old(self)@, r == old(self)@.contains(*k) { unimplemented!() }
}
impl<K, W> HashMap<K, W> {
    /// the keys in the order the map is iterated in: each once
    #[verifier::external_body]
    pub fn vx_keys(&self) -> (r: Vec<K>) ensures r@ == order(self@), r@.no_duplicates(), r@.to_set() == self@.dom() { unimplemented!() }
}
pub uninterp spec fn order<K, W>(m: Map<K, W>) -> Seq<K>;
